// Inserting into the B+ tree.
package bptree
// ---- sequences with one more element ----
// K2 is K with v put in at place j
fn insk(K [int]pointer.ReferencedValue, ko, n int, K2 [int]pointer.ReferencedValue, ko2, j int, v pointer.ReferencedValue) bool =
  forall i int {K2[ko2 + i]} :: 0 <= i && i <= n ==> K2[ko2 + i] == (i < j ? K[ko + i] : i == j ? v : K[ko + i - 1])
fn insl(L [int]pointer.MemoryPointer, lo, n int, L2 [int]pointer.MemoryPointer, lo2, j int, v pointer.MemoryPointer) bool =
  forall i int {L2[lo2 + i]} :: 0 <= i && i <= n ==> L2[lo2 + i] == (i < j ? L[lo + i] : i == j ? v : L[lo + i - 1])
fn insi(I [int]uint64, io, n int, I2 [int]uint64, io2, j int, v int) bool =
  forall i int {I2[io2 + i]} :: 0 <= i && i <= n ==> I2[io2 + i] == (i < j ? I[io + i] : i == j ? v : I[io + i - 1])
lemma kpos_ins(K [int]pointer.ReferencedValue, ko, n int, K2 [int]pointer.ReferencedValue, ko2, w, j int, v pointer.ReferencedValue, i int)
  props C07
  induction i step
  noauto
  requires insk(K, ko, n, K2, ko2, j, v) && 0 <= j && j <= n && 0 <= i && i <= n + 1
  mention kpos(K2, ko2, w, i)
  mention kpos(K2, ko2, w, i - 1)
  mention kpos(K, ko, w, i)
  mention kpos(K, ko, w, i - 1)
  mention kpos(K, ko, w, i - 2)
  mention K2[ko2 + (i - 1)]
  ensures kpos(K2, ko2, w, i) == (i <= j ? kpos(K, ko, w, i) : kpos(K, ko, w, i - 1) + klen(v, w))
lemma lpos_ins(L [int]pointer.MemoryPointer, lo, n int, L2 [int]pointer.MemoryPointer, lo2, b, j int, v pointer.MemoryPointer, i int)
  props C07
  induction i step
  noauto
  requires insl(L, lo, n, L2, lo2, j, v) && 0 <= j && j <= n && 0 <= i && i <= n + 1
  mention lpos(L2, lo2, b, i)
  mention lpos(L2, lo2, b, i - 1)
  mention lpos(L, lo, b, i)
  mention lpos(L, lo, b, i - 1)
  mention lpos(L, lo, b, i - 2)
  mention L2[lo2 + (i - 1)]
  ensures lpos(L2, lo2, b, i) == (i <= j ? lpos(L, lo, b, i) : lpos(L, lo, b, i - 1) + uvl(v.Offset) + uvl(v.Length))
lemma ipos_ins(I [int]uint64, io, n int, I2 [int]uint64, io2, b, j int, v int, i int)
  props C07, C11
  induction i step
  noauto
  requires insi(I, io, n, I2, io2, j, v) && 0 <= j && j <= n && 0 <= i && i <= n + 1
  mention ipos(I2, io2, b, i)
  mention ipos(I2, io2, b, i - 1)
  mention ipos(I, io, b, i)
  mention ipos(I, io, b, i - 1)
  mention ipos(I, io, b, i - 2)
  mention I2[io2 + (i - 1)]
  ensures ipos(I2, io2, b, i) == (i <= j ? ipos(I, io, b, i) : ipos(I, io, b, i - 1) + uvl(v))
// the base only moves the positions
lemma lpos_base(L [int]pointer.MemoryPointer, lo, b, c, i int)
  props C07
  induction i step
  noauto
  mention lpos(L, lo, b, i)
  mention lpos(L, lo, c, i)
  mention lpos(L, lo, b, i - 1)
  mention lpos(L, lo, c, i - 1)
  ensures lpos(L, lo, b, i) - b == lpos(L, lo, c, i) - c
lemma ipos_base(I [int]uint64, io, b, c, i int)
  props C07, C11
  induction i step
  noauto
  mention ipos(I, io, b, i)
  mention ipos(I, io, c, i)
  mention ipos(I, io, b, i - 1)
  mention ipos(I, io, c, i - 1)
  ensures ipos(I, io, b, i) - b == ipos(I, io, c, i) - c
// ---- how much keys and pointers take ----
fn wv(w int) int = w != 0 ? w - 1 : 0
lemma kpos_max(K [int]pointer.ReferencedValue, ko, w, p int, data Bs, n, i int)
  props C07
  induction i step
  noauto
  requires keysok(w, p, data, K, ko, n) && 0 <= i && i <= n && 0 <= w && w <= 256
  use keysok_def(w, p, data, K, ko, n)
  mention kpos(K, ko, w, i)
  mention kpos(K, ko, w, i - 1)
  mention K[ko + (i - 1)]
  ensures kpos(K, ko, w, i) <= 4 + 270 * i && (w <= 2 ==> kpos(K, ko, w, i) <= 4 + 16 * i)
lemma kpos_min(K [int]pointer.ReferencedValue, ko, w, p int, data Bs, n, a, i int)
  props C07
  induction i step
  noauto
  requires keysok(w, p, data, K, ko, n) && 0 <= a && a <= i && i <= n && 0 <= w
  use keysok_def(w, p, data, K, ko, n)
  mention kpos(K, ko, w, i)
  mention kpos(K, ko, w, i - 1)
  mention K[ko + (i - 1)]
  ensures kpos(K, ko, w, i) - kpos(K, ko, w, a) >= 2 * (i - a) && (i > a ==> kpos(K, ko, w, i) - kpos(K, ko, w, a) >= 2 + wv(w))
lemma kpos_two(K [int]pointer.ReferencedValue, ko, w, p int, data Bs, n, a, i int)
  props C07
  noauto
  requires keysok(w, p, data, K, ko, n) && 0 <= a && a + 2 <= i && i <= n && 0 <= w
  use kpos_min(K, ko, w, p, data, n, a, a + 1)
  use kpos_min(K, ko, w, p, data, n, a + 1, a + 2)
  use kpos_min(K, ko, w, p, data, n, a + 2, i)
  ensures kpos(K, ko, w, i) - kpos(K, ko, w, a) >= 2 * wv(w) + 2 * (i - a)
lemma lpos_max(L [int]pointer.MemoryPointer, lo, b, n, i int)
  props C07
  induction i step
  noauto
  requires ptrsok(L, lo, n) && 0 <= i && i <= n
  use ptrsok_def(L, lo, n)
  mention lpos(L, lo, b, i)
  mention lpos(L, lo, b, i - 1)
  mention L[lo + (i - 1)]
  ensures lpos(L, lo, b, i) <= b + 15 * i
lemma lpos_min(L [int]pointer.MemoryPointer, lo, b, a, i int)
  props C07
  induction i step
  noauto
  requires 0 <= a && a <= i
  mention lpos(L, lo, b, i)
  mention lpos(L, lo, b, i - 1)
  ensures lpos(L, lo, b, i) - lpos(L, lo, b, a) >= 2 * (i - a)
lemma ipos_max(I [int]uint64, io, b, i int)
  props C07, C11
  induction i step
  noauto
  requires 0 <= i
  mention ipos(I, io, b, i)
  mention ipos(I, io, b, i - 1)
  ensures ipos(I, io, b, i) <= b + 10 * i
lemma ipos_min(I [int]uint64, io, b, a, i int)
  props C07, C11
  induction i step
  noauto
  requires 0 <= a && a <= i
  mention ipos(I, io, b, i)
  mention ipos(I, io, b, i - 1)
  ensures ipos(I, io, b, i) - ipos(I, io, b, a) >= i - a
// the left half of a node that became too big by one entry fits
lemma half_leaf(K [int]pointer.ReferencedValue, ko, w, p int, data Bs, L [int]pointer.MemoryPointer, lo, n int)
  props C07
  noauto
  let m = n / 2
  let kb = kpos(K, ko, w, n)
  let km = kpos(K, ko, w, m)
  requires keysok(w, p, data, K, ko, n) && ptrsok(L, lo, n) && n >= 0 && 0 <= w && w <= 256 && lpos(L, lo, kb, n) > 4096 && lpos(L, lo, kb, n) <= 4126 + wv(w)
  use kpos_max(K, ko, w, p, data, n, n)
  use lpos_max(L, lo, kb, n, n)
  assert n >= 14 && (w <= 2 ==> n >= 130)
  use kpos_two(K, ko, w, p, data, n, m, n)
  use kpos_min(K, ko, w, p, data, n, m, n)
  use lpos_min(L, lo, kb, m, n)
  use lpos_base(L, lo, kb, km, m)
  ensures [left] lpos(L, lo, km, m) <= 4096
  ensures [halves] 0 < m && m < n && n >= 14 && (w <= 2 ==> n >= 130)
lemma half_inner(K [int]pointer.ReferencedValue, ko, w, p int, data Bs, I [int]uint64, io, n int)
  props C07
  noauto
  let m = n / 2
  let kb = kpos(K, ko, w, n)
  let km = kpos(K, ko, w, m)
  requires keysok(w, p, data, K, ko, n) && n >= 0 && 0 <= w && w <= 256 && ipos(I, io, kb, n + 1) > 4096 && ipos(I, io, kb, n + 1) <= 4121 + wv(w)
  use kpos_max(K, ko, w, p, data, n, n)
  use ipos_max(I, io, kb, n + 1)
  assert n >= 14 && (w <= 2 ==> n >= 130)
  use kpos_two(K, ko, w, p, data, n, m, n)
  use kpos_min(K, ko, w, p, data, n, m, n)
  use ipos_min(I, io, kb, m + 1, n + 1)
  use ipos_base(I, io, kb, km, m + 1)
  ensures [left] ipos(I, io, km, m + 1) <= 4096
  ensures [halves] 0 < m && m + 1 < n && n >= 14 && (w <= 2 ==> n >= 130)
// ---- a written node ----
lemma uvat_move(a [int]int, p int, b [int]int, q, x int)
  props C07, C11
  noauto
  requires uvat(a, p, x) && (forall i int {b[q + i]} :: 0 <= i && i < uvl(x) ==> b[q + i] == a[p + i])
  mention uvat(b, q, x)
  ensures uvat(b, q, x)
// the same bytes hold the same node
fn copied(a [int]int, o int, b [int]int, q, n int) bool = forall i int {b[q + i]} :: 0 <= i && i < n ==> b[q + i] == a[o + i]
lemma enck_move(a [int]int, o int, b [int]int, q, N int, K [int]pointer.ReferencedValue, ko, w, n, i int)
  props C07
  noauto
  let k = K[ko + i]
  let z = kpos(K, ko, w, i)
  requires copied(a, o, b, q, N) && enck(a, o, K, ko, w, n) && 0 <= i && i < n && kpos(K, ko, w, n) <= N
  use kpos_mono(K, ko, w, i + 1, n)
  use kpos_lo(K, ko, w, i)
  mention kpos(K, ko, w, i + 1)
  mention z
  use uvat_move(a, o + z, b, q + z, k.DataPointer.Offset)
  use uvat_move(a, o + z + uvl(k.DataPointer.Offset), b, q + z + uvl(k.DataPointer.Offset), k.DataPointer.Length)
  assert z >= 4 && z + klen(k, w) <= N
  mention mkbs(b, q + z + uvl(k.DataPointer.Offset) + uvl(k.DataPointer.Length), len(k.Value))
  mention mkbs(a, o + z + uvl(k.DataPointer.Offset) + uvl(k.DataPointer.Length), len(k.Value))
  ensures [off] uvat(b, q + z, k.DataPointer.Offset)
  ensures [len] uvat(b, q + z + uvl(k.DataPointer.Offset), k.DataPointer.Length)
  ensures [val] w != 0 ==> mkbs(b, q + z + uvl(k.DataPointer.Offset) + uvl(k.DataPointer.Length), len(k.Value)) == k.Value
lemma encl_move(a [int]int, o int, b [int]int, q, N int, L [int]pointer.MemoryPointer, lo, c, n, i int)
  props C07
  noauto
  let k = L[lo + i]
  let z = lpos(L, lo, c, i)
  requires copied(a, o, b, q, N) && encl(a, o, L, lo, c, n) && 0 <= i && i < n && lpos(L, lo, c, n) <= N && c >= 0
  use lpos_mono(L, lo, c, i + 1, n)
  use lpos_lo(L, lo, c, i)
  mention lpos(L, lo, c, i + 1)
  mention z
  use uvat_move(a, o + z, b, q + z, k.Offset)
  use uvat_move(a, o + z + uvl(k.Offset), b, q + z + uvl(k.Offset), k.Length)
  ensures [off] uvat(b, q + z, k.Offset)
  ensures [len] uvat(b, q + z + uvl(k.Offset), k.Length)
lemma enci_move(a [int]int, o int, b [int]int, q, N int, I [int]uint64, io, c, n, i int)
  props C07, C11
  noauto
  let z = ipos(I, io, c, i)
  requires copied(a, o, b, q, N) && enci(a, o, I, io, c, n) && 0 <= i && i < n && ipos(I, io, c, n) <= N && c >= 0
  use ipos_mono(I, io, c, i + 1, n)
  use ipos_lo(I, io, c, i)
  mention ipos(I, io, c, i + 1)
  mention z
  use uvat_move(a, o + z, b, q + z, I[io + i])
  ensures uvat(b, q + z, I[io + i])
lemma enc_move(a [int]int, o int, b [int]int, q int, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64)
  props C07
  noauto
  let kb = kpos(K, sloff(n.Keys), n.Width, len(n.Keys))
  let lb = lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers))
  let N = npos(n, K, L, I)
  requires copied(a, o, b, q, N) && enc(a, o, n, K, L, I) && shape(n)
  use kpos_lo(K, sloff(n.Keys), n.Width, len(n.Keys))
  use lpos_lo(L, sloff(n.LeafPointers), kb, len(n.LeafPointers))
  use ipos_lo(I, sloff(n.InternalPointers), lb, len(n.InternalPointers))
  assert 4 <= kb && kb <= lb && lb <= N
  mention b[q]
  mention b[q + 1]
  mention b[q + 2]
  mention b[q + 3]
  assert le4(b, q) == le4(a, o)
  use forall i int {kpos(K, sloff(n.Keys), n.Width, i)} :: enck_move(a, o, b, q, N, K, sloff(n.Keys), n.Width, len(n.Keys), i)
  use forall i int {lpos(L, sloff(n.LeafPointers), kb, i)} :: encl_move(a, o, b, q, N, L, sloff(n.LeafPointers), kb, len(n.LeafPointers), i)
  use forall i int {ipos(I, sloff(n.InternalPointers), lb, i)} :: enci_move(a, o, b, q, N, I, sloff(n.InternalPointers), lb, len(n.InternalPointers), i)
  ensures [keys] enck(b, q, K, sloff(n.Keys), n.Width, len(n.Keys))
  ensures [leaves] encl(b, q, L, sloff(n.LeafPointers), kb, len(n.LeafPointers))
  ensures [children] enci(b, q, I, sloff(n.InternalPointers), lb, len(n.InternalPointers))
  ensures [all] enc(b, q, n, K, L, I)
// a page that holds an encoded node is a good page with that node
lemma enc_ok(w, p int, data Bs, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64, b, c int)
  props C07
  noauto
  requires n.Width == w && keysok(w, p, data, K, sloff(n.Keys), len(n.Keys)) && ptrsok(L, sloff(n.LeafPointers), len(n.LeafPointers)) && chsok(I, sloff(n.InternalPointers), len(n.InternalPointers))
  use keysok_def(w, p, data, K, sloff(n.Keys), len(n.Keys))
  use ptrsok_def(L, sloff(n.LeafPointers), len(n.LeafPointers))
  use chsok_def(I, sloff(n.InternalPointers), len(n.InternalPointers))
  ensures [keys] kok(K, sloff(n.Keys), len(n.Keys), w)
  ensures [leaves] lok(L, sloff(n.LeafPointers), b, len(n.LeafPointers))
  ensures [children] iok(I, sloff(n.InternalPointers), c, len(n.InternalPointers))
lemma enc_key(w, p int, data Bs, B Bs, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64, i int)
  props C07
  noauto
  let ko = sloff(n.Keys)
  let kb = kpos(K, ko, w, len(n.Keys))
  let A = bsarr(B)
  requires shape(n) && n.Width == w && enc(A, 0, n, K, L, I) && npos(n, K, L, I) <= 4096
  requires keysok(w, p, data, K, ko, len(n.Keys)) && ptrsok(L, sloff(n.LeafPointers), len(n.LeafPointers)) && chsok(I, sloff(n.InternalPointers), len(n.InternalPointers))
  requires 0 <= i && i < len(n.Keys)
  use enc_ok(w, p, data, n, K, L, I, kb, lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers)))
  use keysok_def(w, p, data, K, ko, len(n.Keys))
  use node_wf(A, 0, 4096, n, K, L, I)
  use dk_un(A, 0, 4096, w, K, ko, len(n.Keys), i)
  mention dkv(w, p, data, B, i)
  mention K[ko + i]
  ensures [off] dkv(w, p, data, B, i).DataPointer == K[ko + i].DataPointer
  ensures [val] dkv(w, p, data, B, i).Value == K[ko + i].Value
  ensures [all] dkv(w, p, data, B, i) == K[ko + i]
lemma enc_leafp(w, p int, data Bs, B Bs, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64, i int)
  props C07
  noauto
  let ko = sloff(n.Keys)
  let kb = kpos(K, ko, w, len(n.Keys))
  let A = bsarr(B)
  requires shape(n) && n.Width == w && enc(A, 0, n, K, L, I) && npos(n, K, L, I) <= 4096
  requires keysok(w, p, data, K, ko, len(n.Keys)) && ptrsok(L, sloff(n.LeafPointers), len(n.LeafPointers)) && chsok(I, sloff(n.InternalPointers), len(n.InternalPointers))
  requires 0 <= i && i < len(n.LeafPointers)
  use enc_ok(w, p, data, n, K, L, I, kb, lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers)))
  use node_wf(A, 0, 4096, n, K, L, I)
  use dl_un(A, 0, 4096, kb, L, sloff(n.LeafPointers), len(n.LeafPointers), i)
  mention dlp(w, B, i)
  ensures dlp(w, B, i) == L[sloff(n.LeafPointers) + i]
lemma enc_child(w, p int, data Bs, B Bs, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64, i int)
  props C07
  noauto
  let ko = sloff(n.Keys)
  let kb = kpos(K, ko, w, len(n.Keys))
  let A = bsarr(B)
  requires shape(n) && n.Width == w && enc(A, 0, n, K, L, I) && npos(n, K, L, I) <= 4096
  requires keysok(w, p, data, K, ko, len(n.Keys)) && ptrsok(L, sloff(n.LeafPointers), len(n.LeafPointers)) && chsok(I, sloff(n.InternalPointers), len(n.InternalPointers))
  requires 0 <= i && i < len(n.InternalPointers)
  use enc_ok(w, p, data, n, K, L, I, kb, lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers)))
  use node_wf(A, 0, 4096, n, K, L, I)
  use di_un(A, 0, 4096, kb, I, sloff(n.InternalPointers), len(n.InternalPointers), i)
  mention dch(w, B, i)
  mention lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers))
  ensures dch(w, B, i) == I[sloff(n.InternalPointers) + i]
lemma page_node(w, p int, data Bs, B Bs, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64)
  props C07
  noauto
  let ko = sloff(n.Keys)
  let kb = kpos(K, ko, w, len(n.Keys))
  let A = bsarr(B)
  let x = nid(K, ko, len(n.Keys), L, sloff(n.LeafPointers), len(n.LeafPointers), I, sloff(n.InternalPointers))
  let y = dn(w, p, data, B)
  requires shape(n) && n.Width == w && enc(A, 0, n, K, L, I) && npos(n, K, L, I) <= 4096
  requires keysok(w, p, data, K, ko, len(n.Keys)) && ptrsok(L, sloff(n.LeafPointers), len(n.LeafPointers)) && chsok(I, sloff(n.InternalPointers), len(n.InternalPointers))
  use enc_ok(w, p, data, n, K, L, I, kb, lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers)))
  use node_wf(A, 0, 4096, n, K, L, I)
  use node_decodable(A, 0, 4096, n, K, L, I)
  use keysok_def(w, p, data, K, ko, len(n.Keys))
  use goodB_def(w, p, data, B)
  use isdn_def(w, p, data, B, y)
  use isnid_def(K, ko, len(n.Keys), L, sloff(n.LeafPointers), len(n.LeafPointers), I, sloff(n.InternalPointers), x)
  mention x
  mention y
  use same_def(x, y)
  use forall i int {dkv(w, p, data, B, i)} :: enc_key(w, p, data, B, n, K, L, I, i)
  use forall i int {dlp(w, B, i)} :: enc_leafp(w, p, data, B, n, K, L, I, i)
  use forall i int {ch(y, i)} :: enc_child(w, p, data, B, n, K, L, I, i)
  use forall i int {dkpos(A, 0, 4096, 0, i)} :: dk_un(A, 0, 4096, 0, K, ko, len(n.Keys), i)
  ensures [complete] decodable(A, 0, 4096, w)
  ensures [data] w == 0 ==> wfdata(A, 0, 4096, data)
  ensures [real] forall i int {dkv(w, p, data, B, i)} :: 0 <= i && i < dnk(A, 0) ==> real(dkv(w, p, data, B, i))
  ensures [good] goodB(w, p, data, B)
  ensures [keys] (leaf(x) <==> leaf(y)) && nk(x) == nk(y) && forall i int {ky(x, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == ky(y, i)
  ensures [leaves] leaf(x) ==> forall i int {pl(x, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == pl(y, i)
  ensures [children] !leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == ch(y, i)
  assert same(x, y)
  ensures [same] x == y
// ---- the store while the path is being written back ----
fn memn(q int) int = mem(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), q)
lemma page_holds(w, p int, data Bs, D [int]int, P int, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64)
  props C07
  noauto
  let B = page(D, P)
  let A = bsarr(B)
  requires shape(n) && n.Width == w && enc(D, P, n, K, L, I) && npos(n, K, L, I) <= 4096
  requires keysok(w, p, data, K, sloff(n.Keys), len(n.Keys)) && ptrsok(L, sloff(n.LeafPointers), len(n.LeafPointers)) && chsok(I, sloff(n.InternalPointers), len(n.InternalPointers))
  mention B[0]
  assert forall i int {A[0 + i]} :: 0 <= i && i < 4096 ==> A[0 + i] == D[P + i]
  use enc_move(D, P, A, 0, n, K, L, I)
  use page_node(w, p, data, B, n, K, L, I)
  ensures [good] goodB(w, p, data, B)
  ensures [node] dn(w, p, data, B) == nid(K, sloff(n.Keys), len(n.Keys), L, sloff(n.LeafPointers), len(n.LeafPointers), I, sloff(n.InternalPointers))
// page P is the same in both
fn pagesame(D, E [int]int, P int) bool = forall i int {E[P + i]} :: 0 <= i && i < 4096 ==> E[P + i] == D[P + i]
lemma page_same(D, E [int]int, P int)
  props C07, C11
  noauto
  requires pagesame(D, E, P)
  ensures page(E, P) == page(D, P)
// V gives the nodes of the store except on pages P and Q
hidden fn rep(V, D [int]int, w, p int, data Bs, P, Q int) bool = forall q int {V[q]} {nmap(D, w, p, data)[q]} :: pg(q) && q != P && q != Q ==> V[q] == nmap(D, w, p, data)[q]
lemma rep_def(V, D [int]int, w, p int, data Bs, P, Q int)
  props C07
  noauto
  ensures rep(V, D, w, p, data, P, Q) <==> (forall q int {V[q]} {nmap(D, w, p, data)[q]} :: pg(q) && q != P && q != Q ==> V[q] == nmap(D, w, p, data)[q])
// the pages V reaches are ours, and complete except for P and Q
hidden fn vpages(V [int]int, r, h int, D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, P, Q int) bool = forall k, l int {tp(V, r, k, l)} :: lev(l, h) ==>
  tp(V, r, k, l) + 4096 <= n && U[tp(V, r, k, l)] && !X[tp(V, r, k, l)] && (tp(V, r, k, l) != P && tp(V, r, k, l) != Q ==> goodB(w, p, data, page(D, tp(V, r, k, l))))
lemma vpages_def(V [int]int, r, h int, D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, P, Q int)
  props C07
  noauto
  ensures vpages(V, r, h, D, n, U, w, p, data, X, P, Q) <==> (forall k, l int {tp(V, r, k, l)} :: lev(l, h) ==>
  tp(V, r, k, l) + 4096 <= n && U[tp(V, r, k, l)] && !X[tp(V, r, k, l)] && (tp(V, r, k, l) != P && tp(V, r, k, l) != Q ==> goodB(w, p, data, page(D, tp(V, r, k, l)))))
lemma vpages_at(V [int]int, r, h int, D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, P, Q, k, l int)
  props C07
  noauto
  requires vpages(V, r, h, D, n, U, w, p, data, X, P, Q) && lev(l, h)
  use vpages_def(V, r, h, D, n, U, w, p, data, X, P, Q)
  mention tp(V, r, k, l)
  ensures tp(V, r, k, l) + 4096 <= n && U[tp(V, r, k, l)] && !X[tp(V, r, k, l)] && (tp(V, r, k, l) != P && tp(V, r, k, l) != Q ==> goodB(w, p, data, page(D, tp(V, r, k, l))))
// what V has is what N had, and s with v
hidden fn ents(V [int]int, r, h int, N [int]int, r0, h0, s, v int) bool = forall z int {tp(V, r, z, h)} :: (has(V, r, h, z) <==> has(N, r0, h0, z) || z == s)
  && (z != s && has(N, r0, h0, z) ==> val(V, r, h, z) == val(N, r0, h0, z)) && (z == s ==> val(V, r, h, s) == v)
lemma ents_def(V [int]int, r, h int, N [int]int, r0, h0, s, v int)
  props C07, C11
  noauto
  ensures ents(V, r, h, N, r0, h0, s, v) <==> (forall z int {tp(V, r, z, h)} :: (has(V, r, h, z) <==> has(N, r0, h0, z) || z == s)
  && (z != s && has(N, r0, h0, z) ==> val(V, r, h, z) == val(N, r0, h0, z)) && (z == s ==> val(V, r, h, s) == v))
lemma ents_ins(N [int]int, r, h, s, v, x int)
  props C07, C11
  noauto
  let p = tp(N, r, s, h)
  let M = N[p <- x]
  requires W(N, r, h) && !has(N, r, h, s) && grown(N[p], x, idx(N[p], s), s, v)
  use ents_def(M, r, h, N, r, h, s, v)
  use forall z int {tp(M, r, z, h)} :: ins_has(N, r, h, s, v, x, z)
  use ins_has(N, r, h, s, v, x, s)
  ensures ents(M, r, h, N, r, h, s, v)
lemma ents_agree(V, M [int]int, r, h int, N [int]int, r0, h0, s, v int)
  props C07, C11
  noauto
  requires W(V, r, h) && agree(V, M, r, h) && ents(V, r, h, N, r0, h0, s, v)
  use ents_def(V, r, h, N, r0, h0, s, v)
  use ents_def(M, r, h, N, r0, h0, s, v)
  use forall z int {tp(M, r, z, h)} :: agree_has(V, M, r, h, z)
  mention tp(V, r, s, h)
  ensures ents(M, r, h, N, r0, h0, s, v)
lemma ents_split(V [int]int, r, h, a, n, m, y, l, y2, q2 int, N [int]int, r0, h0, s, v int)
  props C07, C11
  noauto
  let M = splitn(V, r, a, n, y, l, y2, q2)
  requires splitok(V, r, h, a, n, m, y, l, y2, q2) && ents(V, r, h, N, r0, h0, s, v)
  use ents_def(V, r, h, N, r0, h0, s, v)
  use ents_def(M, r, h, N, r0, h0, s, v)
  use forall z int {tp(M, r, z, h)} :: split_has(V, r, h, a, n, m, y, l, y2, q2, z)
  mention tp(V, r, s, h)
  ensures ents(M, r, h, N, r0, h0, s, v)
lemma ents_push(V [int]int, r, h, z, x int, N [int]int, r0, h0, s, v int)
  props C07, C11
  noauto
  let M = V[z <- x]
  requires W(V, r, h) && unreached(V, r, h, z) && stub(x, r) && ents(V, r, h, N, r0, h0, s, v)
  use ents_def(V, r, h, N, r0, h0, s, v)
  use ents_def(M, z, h + 1, N, r0, h0, s, v)
  use forall k int {tp(M, z, k, h + 1)} :: push_has(V, r, h, z, x, k)
  mention tp(V, r, s, h)
  ensures ents(M, z, h + 1, N, r0, h0, s, v)
// every node V reaches is on its page
hidden fn vdone(V [int]int, r, h int, D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool) bool = forall k, l int {tp(V, r, k, l)} :: lev(l, h) ==>
  V[tp(V, r, k, l)] == nmap(D, w, p, data)[tp(V, r, k, l)] && pageok(D, n, U, w, p, data, X, tp(V, r, k, l))
lemma vdone_def(V [int]int, r, h int, D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool)
  props C07
  noauto
  ensures vdone(V, r, h, D, n, U, w, p, data, X) <==> (forall k, l int {tp(V, r, k, l)} :: lev(l, h) ==>
  V[tp(V, r, k, l)] == nmap(D, w, p, data)[tp(V, r, k, l)] && pageok(D, n, U, w, p, data, X, tp(V, r, k, l)))
lemma same_self(x int)
  props C07, C11
  noauto
  use same_def(x, x)
  ensures same(x, x)
lemma vdone_agree(V [int]int, r, h int, D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool)
  props C07
  noauto
  let N = nmap(D, w, p, data)
  requires W(V, r, h) && vdone(V, r, h, D, n, U, w, p, data, X)
  use vdone_def(V, r, h, D, n, U, w, p, data, X)
  use agree_def(V, N, r, h)
  use forall k, l int {tp(V, r, k, l)} :: same_self(nd(V, r, k, l))
  ensures agree(V, N, r, h)
lemma vdone_tree(V [int]int, r, h int, D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool)
  props C07
  noauto
  let N = nmap(D, w, p, data)
  requires W(V, r, h) && vdone(V, r, h, D, n, U, w, p, data, X) && n <= 4611686018427387904
  use vdone_agree(V, r, h, D, n, U, w, p, data, X)
  use agree_W(V, N, r, h)
  use vdone_def(V, r, h, D, n, U, w, p, data, X)
  use pages_def(D, n, U, w, p, data, X, r, h)
  use forall k, l int {tp(N, r, k, l)} :: agree_at(V, N, r, h, k, l)
  ensures treeok(D, n, U, w, p, data, X, r, h)
// the pages that matter have not changed
lemma vdone_move(V [int]int, r, h int, D, E [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool)
  props C07
  noauto
  requires vdone(V, r, h, D, n, U, w, p, data, X) && W(V, r, h)
  requires forall i int {E[i]} :: i >= 4096 && !X[i - i % 4096] ==> E[i] == D[i]
  use vdone_def(V, r, h, D, n, U, w, p, data, X)
  use vdone_def(V, r, h, E, n, U, w, p, data, X)
  use forall k, l int {tp(V, r, k, l)} :: W_node(V, r, h, k, l)
  use forall q int {nmap(E, w, p, data)[q]} :: page_same(D, E, q)
  ensures vdone(V, r, h, E, n, U, w, p, data, X)
// the last page of the path has been written
lemma vdone_write(V [int]int, r, h int, D, E [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, P int)
  props C07
  noauto
  requires W(V, r, h) && rep(V, D, w, p, data, P, P) && vpages(V, r, h, D, n, U, w, p, data, X, P, P) && pg(P)
  requires forall i int {E[i]} :: i >= 4096 && i - i % 4096 != P ==> E[i] == D[i]
  requires goodB(w, p, data, page(E, P)) && dn(w, p, data, page(E, P)) == V[P]
  use vdone_def(V, r, h, E, n, U, w, p, data, X)
  use vpages_def(V, r, h, D, n, U, w, p, data, X, P, P)
  use rep_def(V, D, w, p, data, P, P)
  use forall k, l int {tp(V, r, k, l)} :: W_node(V, r, h, k, l)
  use forall q int {nmap(E, w, p, data)[q]} :: page_same(D, E, q)
  ensures vdone(V, r, h, E, n, U, w, p, data, X)
// a tree of one leaf
lemma leaf_tree(z int, D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool)
  props C07
  noauto
  let x = dn(w, p, data, page(D, z))
  let N = nmap(D, w, p, data)
  requires pg(z) && goodB(w, p, data, page(D, z)) && leaf(x) && nk(x) == 1 && z + 4096 <= n && U[z] && !X[z] && n <= 4611686018427387904
  use srt_def(x)
  use W_def(N, z, 0)
  use W1_def(N, z, 0)
  use W2_def(N, z, 0)
  use W3_def(N, z, 0)
  use W4_def(N, z, 0)
  use W5_def(N, z, 0)
  use pages_def(D, n, U, w, p, data, X, z, 0)
  mention N[z]
  use forall k, l int {tp(N, z, k, l)} :: at_top(N, z, k, l)
  ensures [w] W(N, z, 0)
  ensures [tree] treeok(D, n, U, w, p, data, X, z, 0)
lemma leaf_has(z int, D [int]int, w, p int, data Bs, k int)
  props C07
  noauto
  let x = dn(w, p, data, page(D, z))
  let N = nmap(D, w, p, data)
  requires leaf(x) && nk(x) == 1
  mention N[z]
  use at_top(N, z, k, 0)
  use srt_def(x)
  use idx_range(x, k)
  use idx_key(x, k, 0)
  ensures has(N, z, 0, k) <==> k == ky(x, 0)
  ensures has(N, z, 0, k) ==> val(N, z, 0, k) == pl(x, 0)
// the entry is in its leaf
lemma ins_path(N [int]int, r, h, s, x, l int)
  props C07, C11
  noauto
  let p = tp(N, r, s, h)
  let M = N[p <- x]
  requires W(N, r, h) && lev(l, h)
  use W_height(N, r, h)
  use ins_at(N, r, h, s, x, s, l)
  use W_level(N, r, h, s, l, s, h)
  ensures tp(M, r, s, l) == tp(N, r, s, l)
  ensures nd(M, r, s, l) == (l == h ? x : nd(N, r, s, l))
lemma ins_start(D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, r, h, s, v, x int)
  props C07
  noauto
  let N = nmap(D, w, p, data)
  let P = tp(N, r, s, h)
  let M = N[P <- x]
  requires treeok(D, n, U, w, p, data, X, r, h) && !has(N, r, h, s) && grown(N[P], x, idx(N[P], s), s, v)
  use ins_W(N, r, h, s, v, x)
  use ents_ins(N, r, h, s, v, x)
  use rep_def(M, D, w, p, data, P, P)
  use vpages_def(M, r, h, D, n, U, w, p, data, X, P, P)
  use pages_def(D, n, U, w, p, data, X, r, h)
  use forall k, l int {tp(M, r, k, l)} :: ins_at(N, r, h, s, x, k, l)
  ensures [w] W(M, r, h)
  ensures [rep] rep(M, D, w, p, data, P, P)
  ensures [pages] vpages(M, r, h, D, n, U, w, p, data, X, P, P)
  ensures [ents] ents(M, r, h, N, r, h, s, v)
// a node on the path (on page P, its parent on page Q) is split, its right half on the new page y
lemma v_split(V [int]int, r, h, a, n, m, y, l, y2, q2 int, D, E [int]int, sz, sz2 int, U, U2 [int]bool, w, p int, data Bs, X [int]bool, P, Q int)
  props C07
  noauto
  let M = splitn(V, r, a, n, y, l, y2, q2)
  requires splitok(V, r, h, a, n, m, y, l, y2, q2) && P == tp(V, r, a, n) && Q == tp(V, r, a, n - 1)
  requires rep(V, D, w, p, data, P, Q) && vpages(V, r, h, D, sz, U, w, p, data, X, P, Q)
  requires forall i int {E[i]} :: i >= 4096 && i - i % 4096 != P && i - i % 4096 != y && i - i % 4096 != Q ==> E[i] == D[i]
  requires goodB(w, p, data, page(E, P)) && dn(w, p, data, page(E, P)) == l
  requires goodB(w, p, data, page(E, y)) && dn(w, p, data, page(E, y)) == y2
  requires sz <= sz2 && y + 4096 <= sz2 && U2[y] && !X[y] && (forall q int {U2[q]} :: U[q] ==> U2[q])
  use W_node(V, r, h, a, n)
  use W_node(V, r, h, a, n - 1)
  use W_level(V, r, h, a, n, a, n - 1)
  use unreached_def(V, r, h, y)
  mention tp(V, r, a, n)
  mention tp(V, r, a, n - 1)
  use rep_def(V, D, w, p, data, P, Q)
  use rep_def(M, E, w, p, data, Q, Q)
  use vpages_def(V, r, h, D, sz, U, w, p, data, X, P, Q)
  use vpages_def(M, r, h, E, sz2, U2, w, p, data, X, Q, Q)
  use forall q int {nmap(E, w, p, data)[q]} :: page_same(D, E, q)
  use forall k, j int {tp(M, r, k, j)} :: split_all(V, r, h, a, n, m, y, l, y2, q2, k, j)
  use forall k, j int {tp(M, r, k, j)} :: page_same(D, E, tp(M, r, k, j))
  use forall k, j int {tp(V, r, k, j)} :: W_node(V, r, h, k, j)
  ensures [rep] rep(M, E, w, p, data, Q, Q)
  ensures [pages] vpages(M, r, h, E, sz2, U2, w, p, data, X, Q, Q)
lemma v_path(V [int]int, r, h, a, n, m, y, l, y2, q2, j int)
  props C07, C11
  noauto
  let M = splitn(V, r, a, n, y, l, y2, q2)
  requires splitok(V, r, h, a, n, m, y, l, y2, q2) && lev(j, h) && j < n
  use split_all(V, r, h, a, n, m, y, l, y2, q2, a, j)
  ensures tp(M, r, a, j) == tp(V, r, a, j)
  ensures nd(M, r, a, j) == (j == n - 1 ? q2 : nd(V, r, a, j))
  ensures j < n - 1 ==> ix(M, r, a, j) == ix(V, r, a, j)
// what is loosened at Q
lemma rep_more(V, D [int]int, r, h int, sz int, U [int]bool, w, p int, data Bs, X [int]bool, P, Q int)
  props C07
  noauto
  requires rep(V, D, w, p, data, P, P) && vpages(V, r, h, D, sz, U, w, p, data, X, P, P)
  use rep_def(V, D, w, p, data, P, P)
  use rep_def(V, D, w, p, data, P, Q)
  use vpages_def(V, r, h, D, sz, U, w, p, data, X, P, P)
  use vpages_def(V, r, h, D, sz, U, w, p, data, X, P, Q)
  ensures rep(V, D, w, p, data, P, Q)
  ensures vpages(V, r, h, D, sz, U, w, p, data, X, P, Q)
// a page not in use is not reached
lemma v_unreached(V, D [int]int, r, h int, sz int, U [int]bool, w, p int, data Bs, X [int]bool, P, Q, y int)
  props C07
  noauto
  requires vpages(V, r, h, D, sz, U, w, p, data, X, P, Q) && !U[y]
  use vpages_def(V, r, h, D, sz, U, w, p, data, X, P, Q)
  use unreached_def(V, r, h, y)
  ensures unreached(V, r, h, y)
// a new root above
lemma v_push(V, D [int]int, r, h, z, x int, sz, sz2 int, U, U2 [int]bool, w, p int, data Bs, X [int]bool, y int)
  props C07
  noauto
  let M = V[z <- x]
  requires W(V, r, h) && unreached(V, r, h, z) && unreached(V, r, h, y) && y != z && stub(x, r) && pg(z) && nk(V[r]) >= 1
  requires rep(V, D, w, p, data, r, r) && vpages(V, r, h, D, sz, U, w, p, data, X, r, r)
  requires sz <= sz2 && z + 4096 <= sz2 && U2[z] && !X[z] && (forall q int {U2[q]} :: U[q] ==> U2[q])
  use push_W(V, r, h, z, x)
  use W_height(V, r, h)
  use unreached_def(V, r, h, z)
  use unreached_def(V, r, h, y)
  use unreached_def(M, z, h + 1, y)
  use rep_def(V, D, w, p, data, r, r)
  use rep_def(M, D, w, p, data, r, z)
  use vpages_def(V, r, h, D, sz, U, w, p, data, X, r, r)
  use vpages_def(M, z, h + 1, D, sz2, U2, w, p, data, X, r, z)
  use forall k, l int {tp(M, z, k, l)} :: at_top(M, z, k, l)
  use forall k, l int {tp(M, z, k, l)} :: push_at(V, r, h, z, x, k, l)
  use forall k, l int {tp(M, z, k, l)} :: at_top(V, r, k, l - 1)
  ensures [w] W(M, z, h + 1)
  ensures [rep] rep(M, D, w, p, data, r, z)
  ensures [pages] vpages(M, z, h + 1, D, sz2, U2, w, p, data, X, r, z)
  ensures [new] unreached(M, z, h + 1, y)
lemma v_root(V [int]int, r, h, z, x, s int)
  props C07, C11
  noauto
  let M = V[z <- x]
  requires W(V, r, h) && unreached(V, r, h, z) && stub(x, r)
  use W_height(V, r, h)
  use push_at(V, r, h, z, x, s, 1)
  use at_top(M, z, s, 0)
  use at_top(V, r, s, 0)
  use stub_idx(x, r, s)
  ensures tp(M, z, s, 0) == z && nd(M, z, s, 0) == x && tp(M, z, s, 1) == r && nd(M, z, s, 1) == V[r] && ix(M, z, s, 0) == 0
// ---- nodes in memory ----
lemma mem_grown(K, K2 [int]pointer.ReferencedValue, ko, ko2, n int, L, L2 [int]pointer.MemoryPointer, lo, lo2 int, I, I2 [int]uint64, io, io2, j int, v pointer.ReferencedValue, m pointer.MemoryPointer)
  props C07
  noauto
  let x = nid(K, ko, n, L, lo, n, I, io)
  let y = nid(K2, ko2, n + 1, L2, lo2, n + 1, I2, io2)
  requires n >= 1 && 0 <= j && j <= n && insk(K, ko, n, K2, ko2, j, v) && insl(L, lo, n, L2, lo2, j, m)
  mention x
  mention y
  use isnid_def(K, ko, n, L, lo, n, I, io, x)
  use isnid_def(K2, ko2, n + 1, L2, lo2, n + 1, I2, io2, y)
  ensures grown(x, y, j, rank(v), mpc(m))
lemma keys_grown(K, K2 [int]pointer.ReferencedValue, ko, ko2, n, j int, v pointer.ReferencedValue, w, p int, data Bs)
  props C07
  noauto
  requires n >= 0 && 0 <= j && j <= n && insk(K, ko, n, K2, ko2, j, v) && keysok(w, p, data, K, ko, n) && keyok(w, p, data, v) && 0 <= w && w <= 256
  use keysok_def(w, p, data, K, ko, n)
  use keysok_def(w, p, data, K2, ko2, n + 1)
  assert forall i int {K2[ko2 + i]} :: 0 <= i && i <= n ==> keyok(w, p, data, K2[ko2 + i])
  use kpos_ins(K, ko, n, K2, ko2, w, j, v, n + 1)
  mention K2[ko2]
  ensures [keys] keysok(w, p, data, K2, ko2, n + 1)
  ensures [size] kpos(K2, ko2, w, n + 1) <= kpos(K, ko, w, n) + 15 + wv(w)
lemma ptrs_grown(L, L2 [int]pointer.MemoryPointer, lo, lo2, n, j int, v pointer.MemoryPointer, b, b2 int)
  props C07
  noauto
  requires n >= 0 && 0 <= j && j <= n && insl(L, lo, n, L2, lo2, j, v) && ptrsok(L, lo, n) && ptrok(v)
  use ptrsok_def(L, lo, n)
  use ptrsok_def(L2, lo2, n + 1)
  assert forall i int {L2[lo2 + i]} :: 0 <= i && i <= n ==> ptrok(L2[lo2 + i])
  use lpos_ins(L, lo, n, L2, lo2, b2, j, v, n + 1)
  use lpos_base(L, lo, b, b2, n)
  ensures [ptrs] ptrsok(L2, lo2, n + 1)
  ensures [size] lpos(L2, lo2, b2, n + 1) - b2 <= lpos(L, lo, b, n) - b + 15
lemma chs_grown(I, I2 [int]uint64, io, io2, n, j, v, b, b2 int)
  props C07, C11
  noauto
  requires n >= 0 && 0 <= j && j <= n && insi(I, io, n, I2, io2, j, v) && chsok(I, io, n) && 0 <= v && v < 18446744073709551616
  use chsok_def(I, io, n)
  use chsok_def(I2, io2, n + 1)
  assert forall i int {I2[io2 + i]} :: 0 <= i && i <= n ==> 0 <= I2[io2 + i] && I2[io2 + i] < 18446744073709551616
  use ipos_ins(I, io, n, I2, io2, b2, j, v, n + 1)
  use ipos_base(I, io, b, b2, n)
  ensures [children] chsok(I2, io2, n + 1)
  ensures [size] ipos(I2, io2, b2, n + 1) - b2 <= ipos(I, io, b, n) - b + 10
lemma mem_halves(K [int]pointer.ReferencedValue, ko, n int, L, L2 [int]pointer.MemoryPointer, lo, lo2 int, I, I2 [int]uint64, io, io2, m int)
  props C07
  noauto
  let x = nid(K, ko, n, L, lo, n, I, io)
  let l = nid(K, ko, m, L, lo, m, I, io)
  let y = nid(K, ko + m, n - m, L, lo + m, n - m, I2, io2)
  requires 0 < m && m < n
  mention x
  mention l
  mention y
  use isnid_def(K, ko, n, L, lo, n, I, io, x)
  use isnid_def(K, ko, m, L, lo, m, I, io, l)
  use isnid_def(K, ko + m, n - m, L, lo + m, n - m, I2, io2, y)
  ensures [left] lefthalf(x, l, m)
  ensures [right] righthalf(x, y, m)
lemma mem_halvesi(K [int]pointer.ReferencedValue, ko, n int, L, L2 [int]pointer.MemoryPointer, lo, lo2 int, I [int]uint64, io, m int)
  props C07
  noauto
  let x = nid(K, ko, n, L, lo, 0, I, io)
  let l = nid(K, ko, m, L, lo, 0, I, io)
  let y = nid(K, ko + m + 1, n - m - 1, L2, lo2, 0, I, io + m + 1)
  requires 0 < m && m + 1 < n
  mention x
  mention l
  mention y
  use isnid_def(K, ko, n, L, lo, 0, I, io, x)
  use isnid_def(K, ko, m, L, lo, 0, I, io, l)
  use isnid_def(K, ko + m + 1, n - m - 1, L2, lo2, 0, I, io + m + 1, y)
  ensures [left] lefthalf(x, l, m)
  ensures [right] righthalf(x, y, m)
lemma mem_parent(K, K2 [int]pointer.ReferencedValue, ko, ko2, n int, L, L2 [int]pointer.MemoryPointer, lo, lo2 int, I, I2 [int]uint64, io, io2, c int, v pointer.ReferencedValue, y int)
  props C07
  noauto
  let q = nid(K, ko, n, L, lo, 0, I, io)
  let q2 = nid(K2, ko2, n + 1, L2, lo2, 0, I2, io2)
  requires n >= 0 && 0 <= c && c <= n && insk(K, ko, n, K2, ko2, c, v) && insi(I, io, n + 1, I2, io2, c + 1, y)
  mention q
  mention q2
  use isnid_def(K, ko, n, L, lo, 0, I, io, q)
  use isnid_def(K2, ko2, n + 1, L2, lo2, 0, I2, io2, q2)
  ensures parent(q, q2, c, rank(v), y)
// parts of good sequences, and where their encodings end
lemma keys_part(K [int]pointer.ReferencedValue, ko, n, m, c, w, p int, data Bs)
  props C07
  noauto
  requires keysok(w, p, data, K, ko, n) && 0 <= m && 0 <= c && m + c <= n
  use keysok_def(w, p, data, K, ko, n)
  use keysok_def(w, p, data, K, ko + m, c)
  ensures keysok(w, p, data, K, ko + m, c)
lemma ptrs_part(L [int]pointer.MemoryPointer, lo, n, m, c int)
  props C07
  noauto
  requires ptrsok(L, lo, n) && 0 <= m && 0 <= c && m + c <= n
  use ptrsok_def(L, lo, n)
  use ptrsok_def(L, lo + m, c)
  ensures ptrsok(L, lo + m, c)
lemma chs_part(I [int]uint64, io, n, m, c int)
  props C07, C11
  noauto
  requires chsok(I, io, n) && 0 <= m && 0 <= c && m + c <= n
  use chsok_def(I, io, n)
  use chsok_def(I, io + m, c)
  ensures chsok(I, io + m, c)
lemma kpos_part(K [int]pointer.ReferencedValue, ko, w, m, i int)
  props C07
  induction i step
  noauto
  requires m >= 0
  mention kpos(K, ko + m, w, i)
  mention kpos(K, ko + m, w, i - 1)
  mention kpos(K, ko, w, m + i)
  mention kpos(K, ko, w, m + i - 1)
  ensures i >= 0 ==> kpos(K, ko + m, w, i) == kpos(K, ko, w, m + i) - kpos(K, ko, w, m) + 4
lemma lpos_part(L [int]pointer.MemoryPointer, lo, b, c, m, i int)
  props C07
  induction i step
  noauto
  requires m >= 0
  mention lpos(L, lo + m, b, i)
  mention lpos(L, lo + m, b, i - 1)
  mention lpos(L, lo, c, m + i)
  mention lpos(L, lo, c, m + i - 1)
  ensures i >= 0 ==> lpos(L, lo + m, b, i) == lpos(L, lo, c, m + i) - lpos(L, lo, c, m) + b
lemma ipos_part(I [int]uint64, io, b, c, m, i int)
  props C07, C11
  induction i step
  noauto
  requires m >= 0
  mention ipos(I, io + m, b, i)
  mention ipos(I, io + m, b, i - 1)
  mention ipos(I, io, c, m + i)
  mention ipos(I, io, c, m + i - 1)
  ensures i >= 0 ==> ipos(I, io + m, b, i) == ipos(I, io, c, m + i) - ipos(I, io, c, m) + b
// so does the right half
lemma right_leaf(K [int]pointer.ReferencedValue, ko, w, p int, data Bs, L [int]pointer.MemoryPointer, lo, n int)
  props C07
  noauto
  let m = n / 2
  let kb = kpos(K, ko, w, n)
  let kr = kpos(K, ko + m, w, n - m)
  requires keysok(w, p, data, K, ko, n) && ptrsok(L, lo, n) && n >= 0 && 0 <= w && w <= 256 && lpos(L, lo, kb, n) > 4096 && lpos(L, lo, kb, n) <= 4126 + wv(w)
  use half_leaf(K, ko, w, p, data, L, lo, n)
  use kpos_part(K, ko, w, m, n - m)
  use lpos_part(L, lo, kr, kb, m, n - m)
  use kpos_two(K, ko, w, p, data, n, 0, m)
  use kpos_min(K, ko, w, p, data, n, 0, m)
  use lpos_min(L, lo, kb, 0, m)
  mention kpos(K, ko, w, 0)
  mention lpos(L, lo, kb, 0)
  use lpos_base(L, lo, kb, kb, m)
  use kpos_lo(K, ko, w, m)
  ensures lpos(L, lo + m, kr, n - m) <= 4096
lemma right_inner(K [int]pointer.ReferencedValue, ko, w, p int, data Bs, I [int]uint64, io, n int)
  props C07
  noauto
  let m = n / 2
  let kb = kpos(K, ko, w, n)
  let kr = kpos(K, ko + m + 1, w, n - m - 1)
  requires keysok(w, p, data, K, ko, n) && n >= 0 && 0 <= w && w <= 256 && ipos(I, io, kb, n + 1) > 4096 && ipos(I, io, kb, n + 1) <= 4121 + wv(w)
  use half_inner(K, ko, w, p, data, I, io, n)
  use kpos_part(K, ko, w, m + 1, n - m - 1)
  use ipos_part(I, io, kr, kb, m + 1, n - m)
  use kpos_two(K, ko, w, p, data, n, 0, m + 1)
  use kpos_min(K, ko, w, p, data, n, 0, m + 1)
  use ipos_min(I, io, kb, 0, m + 1)
  mention kpos(K, ko, w, 0)
  mention ipos(I, io, kb, 0)
  ensures ipos(I, io + m + 1, kr, n - m) <= 4096
// ---- writing a node ----
func (*BPTreeNode).WriteTo(n, w) (m int, err error)
  props C01, C07, C19
  requires w != nil && shape(*n) && npos(*n, elems(n.Keys), elems(n.LeafPointers), elems(n.InternalPointers)) < 1099511627776
  modifies disk, size, pos, iofail
  ensures [bytes] err == nil ==> enc(disk, old(pos), *n, elems(n.Keys), elems(n.LeafPointers), elems(n.InternalPointers))
  ensures [size] err == nil ==> size == max(old(size), old(pos) + npos(*n, elems(n.Keys), elems(n.LeafPointers), elems(n.InternalPointers)))
  ensures [others] forall i int {disk[i]} :: i < old(pos) || i >= old(pos) + npos(*n, elems(n.Keys), elems(n.LeafPointers), elems(n.InternalPointers)) ==> disk[i] == old(disk)[i]
  ensures [grows] size >= old(size)
  ensures [io] iofail <==> old(iofail) || err != nil
  at aftercall Write
    use enc_move(elems(buf), buf.off, disk, old(pos), *n, elems(n.Keys), elems(n.LeafPointers), elems(n.InternalPointers))
lemma not_found(x, s, j int)
  props C07, C11
  noauto
  requires srt(x) && j == below(x, s)
  use idx_range(x, s - 1)
  use idx_range(x, s)
  use idx_key(x, s, j - 1)
  use idx_key(x, s - 1, j - 1)
  use idx_key(x, s, j)
  use idx_key(x, s - 1, j)
  use idx_key(x, s, idx(x, s) - 1)
  use idx_key(x, s - 1, idx(x, s) - 1)
  use srt_def(x)
  ensures (j < nk(x) && ky(x, j) == s) <==> (idx(x, s) > 0 && ky(x, idx(x, s) - 1) == s)
  ensures !(j < nk(x) && ky(x, j) == s) ==> idx(x, s) == j
fn pnode(q, w, p int, data Bs) bool = nodein(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), q, w, p, data)
fn chs(q int) bool = chsok(S(uint64)[arr(H(BPTreeNode)[q].InternalPointers)], sloff(H(BPTreeNode)[q].InternalPointers), len(H(BPTreeNode)[q].InternalPointers))
fn nsize(q int) int = npos(H(BPTreeNode)[q], S(pointer.ReferencedValue)[arr(H(BPTreeNode)[q].Keys)], S(pointer.MemoryPointer)[arr(H(BPTreeNode)[q].LeafPointers)], S(uint64)[arr(H(BPTreeNode)[q].InternalPointers)])
ghost iV [int]int
ghost iD [int]int
ghost iE [int]int
ghost iN int
ghost iU [int]bool
ghost iK [int]pointer.ReferencedValue
ghost iKo int
ghost iL [int]pointer.MemoryPointer
ghost iLo int
ghost iI [int]uint64
ghost iIo int
ghost iM int
ghost iY int
ghost iR int
ghost iP int
ghost iC int
ghost iZ int
ghost iX int
ghost iQ BPTreeNode
ghost iH [int]BPTreeNode
ghost iSK [int][int]pointer.ReferencedValue
ghost iSI [int][int]uint64

func (*BPTree).Insert(t, key, value) (err error)
  props C07, C19
  merge all
  split

  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  let s = rank(key)
  let h = th
  let v = mpc(value)
  let none = tnone(disk, *t)
  let M = mpos(t.MetaPage)
  let w = t.Width
  requires tenv(*t) && t.Width <= 256 && size <= 4611686018427387904
  requires tnone(disk, *t) || treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th)
  requires t.Width != 0 && len(key.Value) != t.Width - 1 || keyok(t.Width, t.DataParser, t.Data, key)
  requires mpos(t.MetaPage) >= 4096 && mpos(t.MetaPage) % 4096 + 12 <= 4096 && mpos(t.MetaPage) + 12 <= size && oth[mpg(t.MetaPage)] && (forall q int {oth[q]} :: oth[q] ==> used[q])
  modifies disk, size, pos, iofail, used, th, tl, iV, iD, iE, iN, iU, iK, iKo, iL, iLo, iI, iIo, iM, iY, iR, iP, iC, iZ, iX, iQ, iH, iSK, iSI
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [grows] size >= old(size)
  ensures [tree] err == nil ==> !tnone(disk, *t) && treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, troot(disk, *t), th)
  ensures [entries] err == nil && !none ==> ents(nmap(disk, t.Width, t.DataParser, t.Data), troot(disk, *t), th, N, r, h, s, v)
  ensures [first] err == nil && none ==> forall z int {tp(nmap(disk, t.Width, t.DataParser, t.Data), troot(disk, *t), z, th)} :: has(nmap(disk, t.Width, t.DataParser, t.Data), troot(disk, *t), th, z) <==> z == s
  ensures [firstvalue] err == nil && none ==> val(nmap(disk, t.Width, t.DataParser, t.Data), troot(disk, *t), th, s) == v
  ensures [duplicate] !none && has(N, r, h, s) ==> err != nil && disk == old(disk) && size == old(size)
  ensures [width] w != 0 && len(key.Value) != w - 1 ==> err != nil && disk == old(disk) && size == old(size)
  ensures [others] err == nil ==> forall i int {disk[i]} :: i >= 4096 && oth[i - i % 4096] && (i < M || i >= M + 12) ==> disk[i] == old(disk)[i]
  at beforecall traverse
    set tl = 0
  at beforecall traverse
    use W_height(N, r, th)
  at beforecall traverse
    use at_top(N, r, s, 0)
  at aftercall MarshalBinary#1
    set iP = $n
  at aftercall MarshalBinary#1
    assert shape(*$n) && npos(*$n, elems($n.Keys), elems($n.LeafPointers), elems($n.InternalPointers)) <= 4096
  at aftercall MarshalBinary#1
    use keysok_def(t.Width, t.DataParser, t.Data, elems($n.Keys), sloff($n.Keys), 1)
  at aftercall MarshalBinary#1
    use ptrsok_def(elems($n.LeafPointers), sloff($n.LeafPointers), 1)
  at aftercall MarshalBinary#1
    use chsok_def(elems($n.InternalPointers), sloff($n.InternalPointers), 0)
  at aftercall NewPage#1
    use enc_move(elems(buf), buf.off, disk, $r, H(BPTreeNode)[iP], elems(H(BPTreeNode)[iP].Keys), elems(H(BPTreeNode)[iP].LeafPointers), elems(H(BPTreeNode)[iP].InternalPointers))
  at aftercall NewPage#1
    use page_holds(t.Width, t.DataParser, t.Data, disk, $r, H(BPTreeNode)[iP], elems(H(BPTreeNode)[iP].Keys), elems(H(BPTreeNode)[iP].LeafPointers), elems(H(BPTreeNode)[iP].InternalPointers))
  at aftercall NewPage#1
    set iE = disk
  at aftercall NewPage#1
    set iY = $r
  at aftercall NewPage#1
    use mem_head(elems(H(BPTreeNode)[iP].Keys), sloff(H(BPTreeNode)[iP].Keys), 1, elems(H(BPTreeNode)[iP].LeafPointers), sloff(H(BPTreeNode)[iP].LeafPointers), 1, elems(H(BPTreeNode)[iP].InternalPointers), sloff(H(BPTreeNode)[iP].InternalPointers))
  at aftercall NewPage#1
    use mem_key(t.Width, t.DataParser, t.Data, elems(H(BPTreeNode)[iP].Keys), sloff(H(BPTreeNode)[iP].Keys), 1, elems(H(BPTreeNode)[iP].LeafPointers), sloff(H(BPTreeNode)[iP].LeafPointers), 1, elems(H(BPTreeNode)[iP].InternalPointers), sloff(H(BPTreeNode)[iP].InternalPointers), 0)
  at aftercall NewPage#1
    use mem_ptr(elems(H(BPTreeNode)[iP].Keys), sloff(H(BPTreeNode)[iP].Keys), 1, elems(H(BPTreeNode)[iP].LeafPointers), sloff(H(BPTreeNode)[iP].LeafPointers), 1, elems(H(BPTreeNode)[iP].InternalPointers), sloff(H(BPTreeNode)[iP].InternalPointers), 0)
  at aftercall SetRoot#1
    set th = 0
  at aftercall SetRoot#1
    use page_same(iE, disk, iY)
  at aftercall SetRoot#1
    use leaf_tree(iY, disk, size, used, t.Width, t.DataParser, t.Data, oth)
  at aftercall SetRoot#1
    use forall z int {tp(nmap(disk, t.Width, t.DataParser, t.Data), iY, z, 0)} :: leaf_has(iY, disk, t.Width, t.DataParser, t.Data, z)
  at beforecall BinarySearchFunc
    use W_node(N, r, th, s, th)
  at beforecall BinarySearchFunc
    use W_height(N, r, th)
  at beforecall BinarySearchFunc
    use search_pre(t.Width, t.DataParser, t.Data, elems(path[0].node.Keys), sloff(path[0].node.Keys), len(path[0].node.Keys), elems(path[0].node.LeafPointers), sloff(path[0].node.LeafPointers), len(path[0].node.LeafPointers), elems(path[0].node.InternalPointers), sloff(path[0].node.InternalPointers))
  at beforecall BinarySearchFunc
    use mem_head(elems(path[0].node.Keys), sloff(path[0].node.Keys), len(path[0].node.Keys), elems(path[0].node.LeafPointers), sloff(path[0].node.LeafPointers), len(path[0].node.LeafPointers), elems(path[0].node.InternalPointers), sloff(path[0].node.InternalPointers))
  at aftercall BinarySearchFunc
    use search_post(t.Width, t.DataParser, t.Data, elems(path[0].node.Keys), sloff(path[0].node.Keys), len(path[0].node.Keys), elems(path[0].node.LeafPointers), sloff(path[0].node.LeafPointers), len(path[0].node.LeafPointers), elems(path[0].node.InternalPointers), sloff(path[0].node.InternalPointers), key, $place)
  at aftercall BinarySearchFunc
    use not_found(nd(N, r, s, th), s, $place)
  at aftercall BinarySearchFunc
    set iK = elems(path[0].node.Keys)
  at aftercall BinarySearchFunc
    set iKo = sloff(path[0].node.Keys)
  at aftercall BinarySearchFunc
    set iL = elems(path[0].node.LeafPointers)
  at aftercall BinarySearchFunc
    set iLo = sloff(path[0].node.LeafPointers)
  at aftercall BinarySearchFunc
    set iH = H(BPTreeNode)
  at aftercall BinarySearchFunc
    set iSK = S(pointer.ReferencedValue)
  at aftercall BinarySearchFunc
    set iSI = S(uint64)
  loop 0
    modifies disk, size, pos, iofail, used, th, iV, iD, iE, iN, iU, iK, iKo, iI, iIo, iM, iY, iR, iP, iC, iZ, iX, iQ, iH, iSK, iSI, H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64)
    enter assert [keys] insk(iK, iKo, len(path[0].node.Keys) - 1, elems(path[0].node.Keys), sloff(path[0].node.Keys), j, key)
    enter assert [ptrs] insl(iL, iLo, len(path[0].node.Keys) - 1, elems(path[0].node.LeafPointers), sloff(path[0].node.LeafPointers), j, value)
    enter use mem_grown(iK, elems(path[0].node.Keys), iKo, sloff(path[0].node.Keys), len(path[0].node.Keys) - 1, iL, elems(path[0].node.LeafPointers), iLo, sloff(path[0].node.LeafPointers), elems(path[0].node.InternalPointers), elems(path[0].node.InternalPointers), sloff(path[0].node.InternalPointers), sloff(path[0].node.InternalPointers), j, key, value)
    enter use keys_grown(iK, elems(path[0].node.Keys), iKo, sloff(path[0].node.Keys), len(path[0].node.Keys) - 1, j, key, t.Width, t.DataParser, t.Data)
    enter use ptrs_grown(iL, elems(path[0].node.LeafPointers), iLo, sloff(path[0].node.LeafPointers), len(path[0].node.Keys) - 1, j, value, kpos(iK, iKo, t.Width, len(path[0].node.Keys) - 1), kpos(elems(path[0].node.Keys), sloff(path[0].node.Keys), t.Width, len(path[0].node.Keys)))
    enter use ins_start(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th, s, v, memn(path[0].node))
    enter set iV = N[tp(N, r, s, th) <- memn(path[0].node)]
    enter use forall l int {tp(iV, r, s, l)} :: ins_path(N, r, th, s, memn(path[0].node), l)
    enter use forall l int {tp(iV, r, s, l)} :: W_node(iV, r, th, s, l)
    enter assert [rest] forall j int {path[j]} :: 0 < j && j < len(path) ==> *path[j].node == iH[path[j].node] && elems(path[j].node.Keys) == iSK[arr(path[j].node.Keys)] && elems(path[j].node.InternalPointers) == iSI[arr(path[j].node.InternalPointers)]
    enter assert [leaf] pnode(path[0].node, t.Width, t.DataParser, t.Data) && chs(path[0].node) && nsize(path[0].node) <= 4126 + wv(t.Width)
    enter assert [fresh] fresh(path[0].node) && fresh(path[0].node.Keys) && fresh(path[0].node.LeafPointers) && alive(path[0].node) && alive(path[0].node.Keys) && alive(path[0].node.LeafPointers)
    invariant [io] iofail <==> old(iofail)
    invariant [index] 0 <= i && i <= th && len(path) == th + 1 && th == h
    invariant [size] size >= old(size) && size <= 4611686018427387904
    invariant [tree] W(iV, r, th)
    invariant [rep] rep(iV, disk, t.Width, t.DataParser, t.Data, tp(iV, r, s, th - i), tp(iV, r, s, th - i))
    invariant [pages] vpages(iV, r, th, disk, size, used, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i))
    invariant [entries] ents(iV, r, th, N, r, h, s, v)
    invariant [nodes] forall j int {path[j]} :: i <= j && j < len(path) ==> pnode(path[j].node, t.Width, t.DataParser, t.Data) && memn(path[j].node) == nd(iV, r, s, th - j)
    invariant [offsets] forall j int {path[j]} :: i <= j && j < len(path) ==> path[j].ptr.Offset == tp(iV, r, s, th - j)
    invariant [index2] forall j int {path[j]} :: i < j && j < len(path) ==> path[j].index == ix(iV, r, s, th - j)
    invariant [fits] forall j int {path[j]} :: i < j && j < len(path) ==> nsize(path[j].node) <= 4096
    invariant [chs] forall j int {path[j]} :: i <= j && j < len(path) ==> chs(path[j].node)
    invariant [big] nsize(path[i].node) <= (i == 0 ? 4126 : 4121) + wv(t.Width)
    invariant [fresh] forall j int {path[j]} :: i <= j && j < len(path) ==> fresh(path[j].node) && fresh(path[j].node.Keys) && (len(path[j].node.LeafPointers) > 0 ==> fresh(path[j].node.LeafPointers)) && (len(path[j].node.InternalPointers) > 0 ==> fresh(path[j].node.InternalPointers))
    invariant [alive] forall j int {path[j]} :: i <= j && j < len(path) ==> alive(path[j].node) && alive(path[j].node.Keys) && alive(path[j].node.LeafPointers) && alive(path[j].node.InternalPointers)
    invariant [inner] forall j int {path[j]} :: i <= j && j < len(path) ==> (j == 0 ? len(path[j].node.LeafPointers) > 0 : len(path[j].node.InternalPointers) > 0 && cap(path[j].node.InternalPointers) > 0 && len(path[j].node.LeafPointers) == 0 && arr(path[j].node.LeafPointers) == 0) && cap(path[j].node.Keys) > 0
    invariant [arrays] forall j, m int {path[j], path[m]} :: i <= j && j < m && m < len(path) ==> path[j].node != path[m].node && arr(path[j].node.Keys) != arr(path[m].node.Keys) && (j > 0 ==> arr(path[j].node.InternalPointers) != arr(path[m].node.InternalPointers))
    invariant [meta] forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q]
    invariant [used] forall q int {used[q]} :: old(used)[q] ==> used[q]
  at beforecall Size
    set iD = disk
  at beforecall Size
    set iN = size
  at beforecall Size
    set iU = used
  at beforecall Size
    set iH = H(BPTreeNode)
  at beforecall Size
    set iSK = S(pointer.ReferencedValue)
  at beforecall Size
    set iSI = S(uint64)
  at beforecall Size
    set iQ = *path[i + 1].node
  at beforecall Size
    set iK = elems(path[i + 1].node.Keys)
  at beforecall Size
    set iKo = sloff(path[i + 1].node.Keys)
  at beforecall Size
    set iI = elems(path[i + 1].node.InternalPointers)
  at beforecall Size
    set iIo = sloff(path[i + 1].node.InternalPointers)
  at beforecall Size
    use W_node(iV, r, th, s, th - i)
  at beforecall Size
    use W_node(iV, r, th, s, th - i - 1)
  at beforecall Size
    use vpages_at(iV, r, th, disk, size, used, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i), s, th - i)
  at beforecall Size
    use vpages_at(iV, r, th, disk, size, used, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i), s, th - i - 1)
  at beforecall Size
    use at_step(iV, r, s, th - i)
  at beforecall Size
    use mem_head(elems(path[i + 1].node.Keys), sloff(path[i + 1].node.Keys), len(path[i + 1].node.Keys), elems(path[i + 1].node.LeafPointers), sloff(path[i + 1].node.LeafPointers), len(path[i + 1].node.LeafPointers), elems(path[i + 1].node.InternalPointers), sloff(path[i + 1].node.InternalPointers))
  at beforecall Size
    use idx_range(memn(path[i + 1].node), s)
  at beforecall Size
    assert [above] i + 1 < len(path) ==> memn(path[i + 1].node) == nd(iV, r, s, th - i - 1) && path[i + 1].index == ix(iV, r, s, th - i - 1) && len(path[i + 1].node.LeafPointers) == 0 && shape(*path[i + 1].node)
  at beforecall Size
    assert [parent] i + 1 < len(path) ==> pnode(path[i + 1].node, t.Width, t.DataParser, t.Data) && chs(path[i + 1].node) && nsize(path[i + 1].node) <= 4096
  at beforecall Size
    assert [here] path[i].ptr.Offset == tp(iV, r, s, th - i) && memn(path[i].node) == nd(iV, r, s, th - i)
  at beforecall Size
    use mem_child(elems(path[i + 1].node.Keys), sloff(path[i + 1].node.Keys), len(path[i + 1].node.Keys), elems(path[i + 1].node.LeafPointers), sloff(path[i + 1].node.LeafPointers), len(path[i + 1].node.LeafPointers), elems(path[i + 1].node.InternalPointers), sloff(path[i + 1].node.InternalPointers), path[i + 1].index)
  at beforecall Size
    assert [slot] i + 1 < len(path) ==> elems(path[i + 1].node.InternalPointers)[sloff(path[i + 1].node.InternalPointers) + path[i + 1].index] == path[i].ptr.Offset && 0 <= path[i + 1].index && path[i + 1].index <= len(path[i + 1].node.Keys)
  at beforecall MarshalBinary#2
    set iP = $n
  at beforecall MarshalBinary#2
    set iM = mid
  at beforecall MarshalBinary#2
    assert [leafpart] len(path[i].node.LeafPointers) > 0 ==> elems($n.Keys) == elems(path[i].node.Keys) && sloff($n.Keys) == sloff(path[i].node.Keys) + mid && len($n.Keys) == len(path[i].node.Keys) - mid && elems($n.LeafPointers) == elems(path[i].node.LeafPointers) && sloff($n.LeafPointers) == sloff(path[i].node.LeafPointers) + mid && len($n.LeafPointers) == len(path[i].node.Keys) - mid && len($n.InternalPointers) == 0 && len(path[i].node.Keys) == len(path[i].node.LeafPointers)
  at beforecall MarshalBinary#2
    assert [innerpart] len(path[i].node.LeafPointers) == 0 ==> elems($n.Keys) == elems(path[i].node.Keys) && sloff($n.Keys) == sloff(path[i].node.Keys) + mid + 1 && len($n.Keys) == len(path[i].node.Keys) - mid - 1 && elems($n.InternalPointers) == elems(path[i].node.InternalPointers) && sloff($n.InternalPointers) == sloff(path[i].node.InternalPointers) + mid + 1 && len($n.InternalPointers) == len(path[i].node.Keys) - mid && len($n.LeafPointers) == 0 && len(path[i].node.Keys) + 1 == len(path[i].node.InternalPointers)
  at beforecall MarshalBinary#2
    assert [node] pnode(path[i].node, t.Width, t.DataParser, t.Data) && chs(path[i].node) && nsize(path[i].node) > 4096 && nsize(path[i].node) <= (i == 0 ? 4126 : 4121) + wv(t.Width) && (i == 0 <==> len(path[i].node.LeafPointers) > 0)
  at beforecall MarshalBinary#2
    assert [sizes] len(path[i].node.LeafPointers) > 0 ? nsize(path[i].node) == lpos(elems(path[i].node.LeafPointers), sloff(path[i].node.LeafPointers), kpos(elems(path[i].node.Keys), sloff(path[i].node.Keys), t.Width, len(path[i].node.Keys)), len(path[i].node.Keys)) : nsize(path[i].node) == ipos(elems(path[i].node.InternalPointers), sloff(path[i].node.InternalPointers), kpos(elems(path[i].node.Keys), sloff(path[i].node.Keys), t.Width, len(path[i].node.Keys)), len(path[i].node.Keys) + 1)
  at beforecall MarshalBinary#2
    use half_leaf(elems(path[i].node.Keys), sloff(path[i].node.Keys), t.Width, t.DataParser, t.Data, elems(path[i].node.LeafPointers), sloff(path[i].node.LeafPointers), len(path[i].node.Keys))
  at beforecall MarshalBinary#2
    use half_inner(elems(path[i].node.Keys), sloff(path[i].node.Keys), t.Width, t.DataParser, t.Data, elems(path[i].node.InternalPointers), sloff(path[i].node.InternalPointers), len(path[i].node.Keys))
  at beforecall MarshalBinary#2
    use right_leaf(elems(path[i].node.Keys), sloff(path[i].node.Keys), t.Width, t.DataParser, t.Data, elems(path[i].node.LeafPointers), sloff(path[i].node.LeafPointers), len(path[i].node.Keys))
  at beforecall MarshalBinary#2
    use right_inner(elems(path[i].node.Keys), sloff(path[i].node.Keys), t.Width, t.DataParser, t.Data, elems(path[i].node.InternalPointers), sloff(path[i].node.InternalPointers), len(path[i].node.Keys))
  at beforecall MarshalBinary#2
    use keys_part(elems(path[i].node.Keys), sloff(path[i].node.Keys), len(path[i].node.Keys), mid, len(path[i].node.Keys) - mid, t.Width, t.DataParser, t.Data)
  at beforecall MarshalBinary#2
    use keys_part(elems(path[i].node.Keys), sloff(path[i].node.Keys), len(path[i].node.Keys), mid + 1, len(path[i].node.Keys) - mid - 1, t.Width, t.DataParser, t.Data)
  at beforecall MarshalBinary#2
    use keys_part(elems(path[i].node.Keys), sloff(path[i].node.Keys), len(path[i].node.Keys), 0, mid, t.Width, t.DataParser, t.Data)
  at beforecall MarshalBinary#2
    use ptrs_part(elems(path[i].node.LeafPointers), sloff(path[i].node.LeafPointers), len(path[i].node.Keys), mid, len(path[i].node.Keys) - mid)
  at beforecall MarshalBinary#2
    use ptrs_part(elems(path[i].node.LeafPointers), sloff(path[i].node.LeafPointers), len(path[i].node.Keys), 0, mid)
  at beforecall MarshalBinary#2
    use chs_part(elems(path[i].node.InternalPointers), sloff(path[i].node.InternalPointers), len(path[i].node.Keys) + 1, mid + 1, len(path[i].node.Keys) - mid)
  at beforecall MarshalBinary#2
    use chs_part(elems(path[i].node.InternalPointers), sloff(path[i].node.InternalPointers), len(path[i].node.Keys) + 1, 0, mid + 1)
  at beforecall MarshalBinary#2
    use chsok_def(elems($n.InternalPointers), sloff($n.InternalPointers), len($n.InternalPointers))
  at beforecall MarshalBinary#2
    use ptrsok_def(elems($n.LeafPointers), sloff($n.LeafPointers), len($n.LeafPointers))
  at beforecall MarshalBinary#2
    use mem_head(elems(path[i].node.Keys), sloff(path[i].node.Keys), len(path[i].node.Keys), elems(path[i].node.LeafPointers), sloff(path[i].node.LeafPointers), len(path[i].node.LeafPointers), elems(path[i].node.InternalPointers), sloff(path[i].node.InternalPointers))
  at beforecall MarshalBinary#2
    assert [cut] 0 < mid && (leaf(nd(iV, r, s, th - i)) ? mid : mid + 1) < nk(nd(iV, r, s, th - i))
  at beforecall MarshalBinary#2
    use mem_key(t.Width, t.DataParser, t.Data, elems(path[i].node.Keys), sloff(path[i].node.Keys), len(path[i].node.Keys), elems(path[i].node.LeafPointers), sloff(path[i].node.LeafPointers), len(path[i].node.LeafPointers), elems(path[i].node.InternalPointers), sloff(path[i].node.InternalPointers), mid)
  at beforecall MarshalBinary#2
    assert [sepok] keyok(t.Width, t.DataParser, t.Data, midKey)
  at beforecall MarshalBinary#2
    assert [sep] rank(midKey) == ky(nd(iV, r, s, th - i), mid)
  at beforecall MarshalBinary#2
    assert [rightok] pnode($n, t.Width, t.DataParser, t.Data) && chs($n)
  at beforecall MarshalBinary#2
    assert [right] shape(*$n) && nsize($n) <= 4096
  at beforecall MarshalBinary#2
    use mem_halves(elems(path[i].node.Keys), sloff(path[i].node.Keys), len(path[i].node.Keys), elems(path[i].node.LeafPointers), elems($n.LeafPointers), sloff(path[i].node.LeafPointers), 0, elems(path[i].node.InternalPointers), elems($n.InternalPointers), sloff(path[i].node.InternalPointers), sloff($n.InternalPointers), mid)
  at beforecall MarshalBinary#2
    use mem_halvesi(elems(path[i].node.Keys), sloff(path[i].node.Keys), len(path[i].node.Keys), elems(path[i].node.LeafPointers), elems($n.LeafPointers), sloff(path[i].node.LeafPointers), sloff($n.LeafPointers), elems(path[i].node.InternalPointers), sloff(path[i].node.InternalPointers), mid)
  at beforecall MarshalBinary#2
    assert [halfl] len(path[i].node.LeafPointers) > 0 ==> righthalf(memn(path[i].node), memn($n), mid)
  at beforecall MarshalBinary#2
    assert [halfi] len(path[i].node.LeafPointers) == 0 ==> righthalf(memn(path[i].node), memn($n), mid)
  at beforecall MarshalBinary#2
    assert [half] righthalf(nd(iV, r, s, th - i), memn($n), mid)
  at aftercall NewPage#2
    assert [copied] $err == nil ==> (copied(elems(mbuf), mbuf.off, disk, $r, nsize(iP)) && shape(H(BPTreeNode)[iP]) && nsize(iP) <= 4096)
  at aftercall NewPage#2
    assert [enc] $err == nil ==> (enc(elems(mbuf), mbuf.off, H(BPTreeNode)[iP], elems(H(BPTreeNode)[iP].Keys), elems(H(BPTreeNode)[iP].LeafPointers), elems(H(BPTreeNode)[iP].InternalPointers)))
  at aftercall NewPage#2
    use enc_move(elems(mbuf), mbuf.off, disk, $r, H(BPTreeNode)[iP], elems(H(BPTreeNode)[iP].Keys), elems(H(BPTreeNode)[iP].LeafPointers), elems(H(BPTreeNode)[iP].InternalPointers))
  at aftercall NewPage#2
    use page_holds(t.Width, t.DataParser, t.Data, disk, $r, H(BPTreeNode)[iP], elems(H(BPTreeNode)[iP].Keys), elems(H(BPTreeNode)[iP].LeafPointers), elems(H(BPTreeNode)[iP].InternalPointers))
  at aftercall NewPage#2
    set iE = disk
  at aftercall NewPage#2
    set iY = $r
  at aftercall NewPage#2
    set iR = memn(iP)
  at aftercall NewPage#2
    assert [new] $err == nil ==> (goodB(t.Width, t.DataParser, t.Data, page(disk, iY)) && dn(t.Width, t.DataParser, t.Data, page(disk, iY)) == iR)
  at aftercall NewPage#2
    use v_unreached(iV, iD, r, th, iN, iU, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i), $r)
  at beforecall WriteTo#1
    use chsok_def(elems($n.InternalPointers), sloff($n.InternalPointers), len($n.InternalPointers))
  at beforecall WriteTo#1
    use ptrsok_def(elems($n.LeafPointers), sloff($n.LeafPointers), len($n.LeafPointers))
  at beforecall WriteTo#1
    assert [leftok] pnode($n, t.Width, t.DataParser, t.Data) && chs($n)
  at beforecall WriteTo#1
    assert [seek] pos == tp(iV, r, s, th - i) && tp(iV, r, s, th - i) + 4096 <= iN && iN <= size && size <= 4611686018427387904
  at beforecall WriteTo#1
    assert [left] shape(*$n) && nsize($n) <= 4096
  at beforecall WriteTo#1
    assert [half] lefthalf(nd(iV, r, s, th - i), memn($n), iM)
  at beforecall WriteTo#1
    assert [size] $n == path[i].node
  at aftercall WriteTo#1
    use page_holds(t.Width, t.DataParser, t.Data, disk, tp(iV, r, s, th - i), *path[i].node, elems(path[i].node.Keys), elems(path[i].node.LeafPointers), elems(path[i].node.InternalPointers))
  at aftercall WriteTo#1
    assert [apart] $err == nil ==> (iY + 4096 <= tp(iV, r, s, th - i) || tp(iV, r, s, th - i) + 4096 <= iY)
  at aftercall WriteTo#1
    assert [same] $err == nil ==> (pagesame(iE, disk, iY))
  at aftercall WriteTo#1
    use page_same(iE, disk, iY)
  at aftercall WriteTo#1
    set iC = memn(path[i].node)
  at aftercall WriteTo#1
    assert [parent] $err == nil ==> (i + 1 < len(path) ==> *path[i + 1].node == iQ && elems(path[i + 1].node.Keys) == iK && elems(path[i + 1].node.InternalPointers) == iI)
  at aftercall WriteTo#1
    assert [held] $err == nil ==> (goodB(t.Width, t.DataParser, t.Data, page(disk, tp(iV, r, s, th - i))) && dn(t.Width, t.DataParser, t.Data, page(disk, tp(iV, r, s, th - i))) == iC)
  at aftercall WriteTo#1
    assert [new] $err == nil ==> (goodB(t.Width, t.DataParser, t.Data, page(disk, iY)) && dn(t.Width, t.DataParser, t.Data, page(disk, iY)) == iR)
  at aftercall WriteTo#1
    assert [outside] $err == nil ==> (forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != tp(iV, r, s, th - i) && a - a % 4096 != iY ==> disk[a] == iD[a])
  at aftercall WriteTo#1
    assert [alloc] $err == nil ==> (iN <= size && iY + 4096 <= size && size <= 4611686018427387904 && used[iY] && !oth[iY] && pg(iY) && !oth[tp(iV, r, s, th - i)])
  at aftercall WriteTo#1
    assert [metaD] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == iD[q])
  at aftercall WriteTo#1
    assert [meta] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q])
  at aftercall WriteTo#1
    assert [inuse] $err == nil ==> (forall q int {used[q]} :: iU[q] ==> used[q])
  at beforecall MarshalBinary#3
    set iP = $n
  at beforecall MarshalBinary#3
    assert [meta] forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q]
  at beforecall MarshalBinary#3
    assert [outside] forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != r && a - a % 4096 != iY ==> disk[a] == iD[a]
  at beforecall MarshalBinary#3
    use keysok_def(t.Width, t.DataParser, t.Data, elems($n.Keys), sloff($n.Keys), 1)
  at beforecall MarshalBinary#3
    use chsok_def(elems($n.InternalPointers), sloff($n.InternalPointers), 2)
  at beforecall MarshalBinary#3
    use ptrsok_def(elems($n.LeafPointers), sloff($n.LeafPointers), 0)
  at beforecall MarshalBinary#3
    assert [root] i == th && len($n.Keys) == 1 && len($n.InternalPointers) == 2 && len($n.LeafPointers) == 0 && shape(*$n)
  at beforecall MarshalBinary#3
    assert [rootkey] elems($n.Keys)[sloff($n.Keys)] == midKey && elems($n.InternalPointers)[sloff($n.InternalPointers)] == tp(iV, r, s, th - i) && elems($n.InternalPointers)[sloff($n.InternalPointers) + 1] == iY
  at beforecall MarshalBinary#3
    assert [rootok] pnode($n, t.Width, t.DataParser, t.Data) && chs($n)
  at beforecall MarshalBinary#3
    use kpos_max(elems($n.Keys), sloff($n.Keys), t.Width, t.DataParser, t.Data, 1, 1)
  at beforecall MarshalBinary#3
    use kpos_lo(elems($n.Keys), sloff($n.Keys), t.Width, 1)
  at beforecall MarshalBinary#3
    use lpos_lo(elems($n.LeafPointers), sloff($n.LeafPointers), kpos(elems($n.Keys), sloff($n.Keys), t.Width, 1), 0)
  at beforecall MarshalBinary#3
    use ipos_lo(elems($n.InternalPointers), sloff($n.InternalPointers), lpos(elems($n.LeafPointers), sloff($n.LeafPointers), kpos(elems($n.Keys), sloff($n.Keys), t.Width, 1), 0), 2)
  at beforecall MarshalBinary#3
    mention lpos(elems($n.LeafPointers), sloff($n.LeafPointers), kpos(elems($n.Keys), sloff($n.Keys), t.Width, 1), 0)
  at beforecall MarshalBinary#3
    use ipos_max(elems($n.InternalPointers), sloff($n.InternalPointers), lpos(elems($n.LeafPointers), sloff($n.LeafPointers), kpos(elems($n.Keys), sloff($n.Keys), t.Width, 1), 0), 2)
  at beforecall MarshalBinary#3
    assert [rootsize] 4 <= nsize($n) && nsize($n) <= 4096
  at beforecall MarshalBinary#3
    set iE = disk
  at beforecall MarshalBinary#3
    set iX = nid(elems($n.Keys), sloff($n.Keys), 0, elems($n.LeafPointers), sloff($n.LeafPointers), 0, elems($n.InternalPointers), sloff($n.InternalPointers))
  at beforecall MarshalBinary#3
    use mem_parent(elems($n.Keys), elems($n.Keys), sloff($n.Keys), sloff($n.Keys), 0, elems($n.LeafPointers), elems($n.LeafPointers), sloff($n.LeafPointers), sloff($n.LeafPointers), elems($n.InternalPointers), elems($n.InternalPointers), sloff($n.InternalPointers), sloff($n.InternalPointers), 0, midKey, iY)
  at beforecall MarshalBinary#3
    use mem_head(elems($n.Keys), sloff($n.Keys), 0, elems($n.LeafPointers), sloff($n.LeafPointers), 0, elems($n.InternalPointers), sloff($n.InternalPointers))
  at beforecall MarshalBinary#3
    use mem_child(elems($n.Keys), sloff($n.Keys), 0, elems($n.LeafPointers), sloff($n.LeafPointers), 0, elems($n.InternalPointers), sloff($n.InternalPointers), 0)
  at beforecall MarshalBinary#3
    use at_top(iV, r, s, 0)
  at beforecall MarshalBinary#3
    assert [stub] stub(iX, r) && parent(iX, memn($n), 0, rank(midKey), iY) && tp(iV, r, s, th - i) == r
  at aftercall NewPage#3
    assert [copied] $err == nil ==> (copied(elems(pbuf), pbuf.off, disk, $r, nsize(iP)) && shape(H(BPTreeNode)[iP]) && nsize(iP) <= 4096)
  at aftercall NewPage#3
    assert [enc] $err == nil ==> (enc(elems(pbuf), pbuf.off, H(BPTreeNode)[iP], elems(H(BPTreeNode)[iP].Keys), elems(H(BPTreeNode)[iP].LeafPointers), elems(H(BPTreeNode)[iP].InternalPointers)))
  at aftercall NewPage#3
    use enc_move(elems(pbuf), pbuf.off, disk, $r, H(BPTreeNode)[iP], elems(H(BPTreeNode)[iP].Keys), elems(H(BPTreeNode)[iP].LeafPointers), elems(H(BPTreeNode)[iP].InternalPointers))
  at aftercall NewPage#3
    use page_holds(t.Width, t.DataParser, t.Data, disk, $r, H(BPTreeNode)[iP], elems(H(BPTreeNode)[iP].Keys), elems(H(BPTreeNode)[iP].LeafPointers), elems(H(BPTreeNode)[iP].InternalPointers))
  at aftercall NewPage#3
    set iZ = $r
  at aftercall NewPage#3
    assert [root] $err == nil ==> (goodB(t.Width, t.DataParser, t.Data, page(disk, iZ)) && dn(t.Width, t.DataParser, t.Data, page(disk, iZ)) == memn(iP))
  at aftercall NewPage#3
    assert [apart] $err == nil ==> ((iY + 4096 <= iZ || iZ + 4096 <= iY) && (r + 4096 <= iZ || iZ + 4096 <= r) && iZ != iY && iZ != r && pg(iZ))
  at aftercall NewPage#3
    use page_same(iE, disk, iY)
  at aftercall NewPage#3
    use page_same(iE, disk, r)
  at aftercall NewPage#3
    assert [held] $err == nil ==> (goodB(t.Width, t.DataParser, t.Data, page(disk, r)) && dn(t.Width, t.DataParser, t.Data, page(disk, r)) == iC && goodB(t.Width, t.DataParser, t.Data, page(disk, iY)) && dn(t.Width, t.DataParser, t.Data, page(disk, iY)) == iR)
  at aftercall NewPage#3
    assert [outE] $err == nil ==> (forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != iZ ==> disk[a] == iE[a])
  at aftercall NewPage#3
    assert [oute] $err == nil ==> (forall a int {iE[a]} :: a >= 4096 && a - a % 4096 != r && a - a % 4096 != iY ==> iE[a] == iD[a])
  at aftercall NewPage#3
    assert [outside] $err == nil ==> (forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != r && a - a % 4096 != iY && a - a % 4096 != iZ ==> disk[a] == iD[a])
  at aftercall NewPage#3
    assert [alloc] $err == nil ==> (iN <= size && iY + 4096 <= size && iZ + 4096 <= size && size <= 4611686018427387904 && used[iY] && used[iZ] && !iU[iZ] && !oth[iY] && pg(iY) && !oth[iZ] && !oth[r])
  at aftercall NewPage#3
    assert [inuse] $err == nil ==> (forall q int {used[q]} :: iU[q] ==> used[q])
  at aftercall NewPage#3
    use v_unreached(iV, iD, r, th, iN, iU, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i), iZ)
  at aftercall NewPage#3
    use v_push(iV, iD, r, th, iZ, iX, iN, size, iU, used, t.Width, t.DataParser, t.Data, oth, iY)
  at aftercall NewPage#3
    use v_root(iV, r, th, iZ, iX, s)
  at aftercall NewPage#3
    assert [pushed] $err == nil ==> (W(iV[iZ <- iX], iZ, th + 1) && rep(iV[iZ <- iX], iD, t.Width, t.DataParser, t.Data, r, iZ) && vpages(iV[iZ <- iX], iZ, th + 1, iD, size, used, t.Width, t.DataParser, t.Data, oth, r, iZ) && unreached(iV[iZ <- iX], iZ, th + 1, iY))
  at aftercall NewPage#3
    use at_top(iV[iZ <- iX], iZ, s, 0)
  at aftercall NewPage#3
    use at_step(iV[iZ <- iX], iZ, s, 1)
  at aftercall NewPage#3
    use at_top(iV, r, s, 0)
  at aftercall NewPage#3
    assert [topd] $err == nil ==> (tp(iV[iZ <- iX], iZ, s, 0) == iZ && nd(iV[iZ <- iX], iZ, s, 0) == iX && tp(iV[iZ <- iX], iZ, s, 1) == r && ix(iV[iZ <- iX], iZ, s, 0) == 0 && nd(iV[iZ <- iX], iZ, s, 1) == nd(iV, r, s, 0))
  at aftercall NewPage#3
    assert [halves] $err == nil ==> (0 < iM && (leaf(nd(iV, r, s, 0)) ? iM : iM + 1) < nk(nd(iV, r, s, 0)) && lefthalf(nd(iV, r, s, 0), iC, iM) && righthalf(nd(iV, r, s, 0), iR, iM))
  at aftercall NewPage#3
    assert [rootp] $err == nil ==> (parent(iX, memn(iP), 0, ky(nd(iV, r, s, 0), iM), iY))
  at aftercall NewPage#3
    assert [split] $err == nil ==> (splitok(iV[iZ <- iX], iZ, th + 1, s, 1, iM, iY, iC, iR, memn(iP)))
  at aftercall NewPage#3
    use v_split(iV[iZ <- iX], iZ, th + 1, s, 1, iM, iY, iC, iR, memn(iP), iD, disk, size, size, used, used, t.Width, t.DataParser, t.Data, oth, r, iZ)
  at aftercall NewPage#3
    use split_W(iV[iZ <- iX], iZ, th + 1, s, 1, iM, iY, iC, iR, memn(iP))
  at aftercall NewPage#3
    use ents_push(iV, r, th, iZ, iX, N, r, h, s, v)
  at aftercall NewPage#3
    use ents_split(iV[iZ <- iX], iZ, th + 1, s, 1, iM, iY, iC, iR, memn(iP), N, r, h, s, v)
  at aftercall NewPage#3
    assert [treed] $err == nil ==> (W(splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, memn(iP)), iZ, th + 1) && ents(splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, memn(iP)), iZ, th + 1, N, r, h, s, v) && rep(splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, memn(iP)), disk, t.Width, t.DataParser, t.Data, iZ, iZ) && vpages(splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, memn(iP)), iZ, th + 1, disk, size, used, t.Width, t.DataParser, t.Data, oth, iZ, iZ))
  at aftercall NewPage#3
    set iV = splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, memn(iP))
  at aftercall NewPage#3
    use vdone_write(iV, iZ, th + 1, disk, disk, size, used, t.Width, t.DataParser, t.Data, oth, iZ)
  at aftercall NewPage#3
    assert [done] $err == nil ==> (vdone(iV, iZ, th + 1, disk, size, used, t.Width, t.DataParser, t.Data, oth))
  at aftercall NewPage#3
    assert [metaO] $err == nil ==> (forall q int {iE[q]} :: q >= 4096 && oth[q - q % 4096] ==> iE[q] == old(disk)[q])
  at aftercall NewPage#3
    assert [metaE] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == iE[q])
  at aftercall NewPage#3
    set iD = disk
  at aftercall NewPage#3
    assert [meta] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q])
  at beforecall SetRoot#2
    assert [slot] 4096 <= M && M % 4096 + 12 <= 4096 && oth[M - M % 4096]
  at beforecall SetRoot#2
    assert [apart] forall i int {oth[i - i % 4096]} :: M <= i && i < M + 12 ==> i - i % 4096 == M - M % 4096
  at aftercall SetRoot#2
    set th = th + 1
  at aftercall SetRoot#2
    assert [frameM] $err == nil ==> (forall i int {disk[i]} :: i < M || i >= M + 12 ==> disk[i] == iD[i])
  at aftercall SetRoot#2
    assert [frame] $err == nil ==> (forall i int {disk[i]} :: i >= 4096 && !oth[i - i % 4096] ==> disk[i] == iD[i])
  at aftercall SetRoot#2
    use vdone_move(iV, iZ, th, iD, disk, size, used, t.Width, t.DataParser, t.Data, oth)
  at aftercall SetRoot#2
    use vdone_tree(iV, iZ, th, disk, size, used, t.Width, t.DataParser, t.Data, oth)
  at aftercall SetRoot#2
    use vdone_agree(iV, iZ, th, disk, size, used, t.Width, t.DataParser, t.Data, oth)
  at aftercall SetRoot#2
    use ents_agree(iV, nmap(disk, t.Width, t.DataParser, t.Data), iZ, th, N, r, h, s, v)
  at aftercall SetRoot#2
    assert [root] $err == nil ==> (troot(disk, *t) == iZ && !tnone(disk, *t))
  at beforecall WriteTo#2
    use W_node(iV, r, th, s, th - i)
  at beforecall WriteTo#2
    assert [node] $n == path[i].node && pnode($n, t.Width, t.DataParser, t.Data) && chs($n) && nsize($n) <= 4096 && memn($n) == iV[tp(iV, r, s, th - i)]
  at beforecall WriteTo#2
    assert [seek] pos == tp(iV, r, s, th - i) && tp(iV, r, s, th - i) + 4096 <= iN && iN == size && size <= 4611686018427387904 && disk == iD && used == iU && pg(tp(iV, r, s, th - i)) && !oth[tp(iV, r, s, th - i)]
  at aftercall WriteTo#2
    use page_holds(t.Width, t.DataParser, t.Data, disk, tp(iV, r, s, th - i), *path[i].node, elems(path[i].node.Keys), elems(path[i].node.LeafPointers), elems(path[i].node.InternalPointers))
  at aftercall WriteTo#2
    assert [outP] $err == nil ==> (forall a int {disk[a]} :: a < tp(iV, r, s, th - i) || a >= tp(iV, r, s, th - i) + 4096 ==> disk[a] == iD[a])
  at aftercall WriteTo#2
    assert [held] $err == nil ==> (goodB(t.Width, t.DataParser, t.Data, page(disk, tp(iV, r, s, th - i))) && dn(t.Width, t.DataParser, t.Data, page(disk, tp(iV, r, s, th - i))) == iV[tp(iV, r, s, th - i)])
  at aftercall WriteTo#2
    assert [outside] $err == nil ==> (forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != tp(iV, r, s, th - i) ==> disk[a] == iD[a])
  at aftercall WriteTo#2
    assert [size] $err == nil ==> (size == iN && used == iU)
  at aftercall WriteTo#2
    assert [apart] $err == nil ==> (forall q int {disk[q]} :: M <= q && q < M + 12 ==> q >= 4096 && oth[q - q % 4096])
  at aftercall WriteTo#2
    use vdone_write(iV, r, th, iD, disk, size, used, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i))
  at aftercall WriteTo#2
    use vdone_tree(iV, r, th, disk, size, used, t.Width, t.DataParser, t.Data, oth)
  at aftercall WriteTo#2
    use vdone_agree(iV, r, th, disk, size, used, t.Width, t.DataParser, t.Data, oth)
  at aftercall WriteTo#2
    use ents_agree(iV, nmap(disk, t.Width, t.DataParser, t.Data), r, th, N, r, h, s, v)
  at aftercall WriteTo#2
    assert [meta] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q])
  at aftercall WriteTo#2
    assert [slot] $err == nil ==> (forall q int {disk[q]} :: M <= q && q < M + 12 ==> disk[q] == old(disk)[q])
  at aftercall WriteTo#2
    assert [root] $err == nil ==> (troot(disk, *t) == r && !tnone(disk, *t))
    hint assert [rest] forall j int {path[j]} :: i < j && j < len(path) ==> *path[j].node == iH[path[j].node] && elems(path[j].node.Keys) == iSK[arr(path[j].node.Keys)] && elems(path[j].node.InternalPointers) == iSI[arr(path[j].node.InternalPointers)]
    hint assert [keys] insk(iK, iKo, len(path[i].node.Keys) - 1, elems(path[i].node.Keys), sloff(path[i].node.Keys), path[i].index, midKey)
    hint assert [chs] insi(iI, iIo, len(path[i].node.Keys), elems(path[i].node.InternalPointers), sloff(path[i].node.InternalPointers), path[i].index + 1, iY)
    hint use mem_parent(iK, elems(path[i].node.Keys), iKo, sloff(path[i].node.Keys), len(path[i].node.Keys) - 1, elems(path[i].node.LeafPointers), elems(path[i].node.LeafPointers), sloff(path[i].node.LeafPointers), sloff(path[i].node.LeafPointers), iI, elems(path[i].node.InternalPointers), iIo, sloff(path[i].node.InternalPointers), path[i].index, midKey, iY)
    hint use keys_grown(iK, elems(path[i].node.Keys), iKo, sloff(path[i].node.Keys), len(path[i].node.Keys) - 1, path[i].index, midKey, t.Width, t.DataParser, t.Data)
    hint use chs_grown(iI, elems(path[i].node.InternalPointers), iIo, sloff(path[i].node.InternalPointers), len(path[i].node.Keys), path[i].index + 1, iY, kpos(iK, iKo, t.Width, len(path[i].node.Keys) - 1), kpos(elems(path[i].node.Keys), sloff(path[i].node.Keys), t.Width, len(path[i].node.Keys)))
    hint use rep_more(iV, iD, r, th, iN, iU, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i + 1), tp(iV, r, s, th - i))
    hint assert [split] splitok(iV, r, th, s, th - i + 1, iM, iY, iC, iR, memn(path[i].node))
    hint assert [frame2] forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != tp(iV, r, s, th - i + 1) && a - a % 4096 != iY ==> disk[a] == iD[a]
    hint assert [frame3] forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != tp(iV, r, s, th - i + 1) && a - a % 4096 != iY && a - a % 4096 != tp(iV, r, s, th - i) ==> disk[a] == iD[a]
    hint assert [held] goodB(t.Width, t.DataParser, t.Data, page(disk, tp(iV, r, s, th - i + 1))) && dn(t.Width, t.DataParser, t.Data, page(disk, tp(iV, r, s, th - i + 1))) == iC && goodB(t.Width, t.DataParser, t.Data, page(disk, iY)) && dn(t.Width, t.DataParser, t.Data, page(disk, iY)) == iR
    hint assert [alloc] iN <= size && iY + 4096 <= size && used[iY] && !oth[iY] && (forall q int {used[q]} :: iU[q] ==> used[q])
    hint assert [loose] rep(iV, iD, t.Width, t.DataParser, t.Data, tp(iV, r, s, th - i + 1), tp(iV, r, s, th - i)) && vpages(iV, r, th, iD, iN, iU, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i + 1), tp(iV, r, s, th - i))
    hint use v_split(iV, r, th, s, th - i + 1, iM, iY, iC, iR, memn(path[i].node), iD, disk, iN, size, iU, used, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i + 1), tp(iV, r, s, th - i))
    hint assert [moved] rep(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), disk, t.Width, t.DataParser, t.Data, tp(iV, r, s, th - i), tp(iV, r, s, th - i)) && vpages(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, th, disk, size, used, t.Width, t.DataParser, t.Data, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i))
    hint use v_path(iV, r, th, s, th - i + 1, iM, iY, iC, iR, memn(path[i].node), th - i)
    hint assert [place] tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, s, th - i) == tp(iV, r, s, th - i) && memn(path[i].node) == nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, s, th - i)
    hint assert [chsp] chs(path[i].node) && pnode(path[i].node, t.Width, t.DataParser, t.Data)
    hint assert [above] forall j int {path[j]} :: i < j && j < len(path) ==> pnode(path[j].node, t.Width, t.DataParser, t.Data) && chs(path[j].node) && memn(path[j].node) == nd(iV, r, s, th - j)
    hint assert [here] forall j int {path[j]} :: i <= j && j < len(path) ==> chs(path[j].node)
    hint assert [pnodes] forall j int {path[j]} :: i <= j && j < len(path) ==> pnode(path[j].node, t.Width, t.DataParser, t.Data)
    hint use split_W(iV, r, th, s, th - i + 1, iM, iY, iC, iR, memn(path[i].node))
    hint use ents_split(iV, r, th, s, th - i + 1, iM, iY, iC, iR, memn(path[i].node), N, r, h, s, v)
    hint use forall l int {tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, s, l)} :: v_path(iV, r, th, s, th - i + 1, iM, iY, iC, iR, memn(path[i].node), l)
    hint assert [along] forall l int {tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, s, l)} :: 0 <= l && l < th - i ==> tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, s, l) == tp(iV, r, s, l) && nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, s, l) == nd(iV, r, s, l) && ix(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, s, l) == ix(iV, r, s, l)
    hint assert [memnj] forall j int {path[j]} :: i < j && j < len(path) ==> memn(path[j].node) == nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, s, th - j)
    hint assert [memni] memn(path[i].node) == nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node)), r, s, th - i)
    hint set iV = splitn(iV, r, s, th - i + 1, iY, iC, iR, memn(path[i].node))
