package bptree
// ---- the encoded form of a node ----
fn klen(k pointer.ReferencedValue, w int) int = uvl(k.DataPointer.Offset) + uvl(k.DataPointer.Length) + (w != 0 ? len(k.Value) : 0)
// position of key i, leaf pointer i, child pointer i in the encoding
rec kpos(K [int]pointer.ReferencedValue, o, w, i int) int = i <= 0 ? 4 : kpos(K, o, w, i - 1) + klen(K[o + i - 1], w)
rec lpos(L [int]pointer.MemoryPointer, o, b, i int) int = i <= 0 ? b : lpos(L, o, b, i - 1) + uvl(L[o + i - 1].Offset) + uvl(L[o + i - 1].Length)
rec ipos(I [int]uint64, o, b, i int) int = i <= 0 ? b : ipos(I, o, b, i - 1) + uvl(I[o + i - 1])

fn npos(n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64) int =
  ipos(I, sloff(n.InternalPointers), lpos(L, sloff(n.LeafPointers), kpos(K, sloff(n.Keys), n.Width, len(n.Keys)), len(n.LeafPointers)), len(n.InternalPointers))

lemma kpos_mono(K [int]pointer.ReferencedValue, o, w, i, j int)
  props C01
  auto
  induction j
  requires 0 <= i && i < j
  pattern kpos(K, o, w, i), kpos(K, o, w, j)
  ensures kpos(K, o, w, j) >= kpos(K, o, w, i) + klen(K[o + i], w) && kpos(K, o, w, i) >= 4
lemma kpos_lo(K [int]pointer.ReferencedValue, o, w, i int)
  props C01
  auto
  induction i
  pattern kpos(K, o, w, i)
  ensures kpos(K, o, w, i) >= 4 + 2 * i
lemma lpos_mono(L [int]pointer.MemoryPointer, o, b, i, j int)
  props C01
  auto
  induction j
  requires 0 <= i && i < j
  pattern lpos(L, o, b, i), lpos(L, o, b, j)
  ensures lpos(L, o, b, j) >= lpos(L, o, b, i) + uvl(L[o + i].Offset) + uvl(L[o + i].Length)
lemma lpos_lo(L [int]pointer.MemoryPointer, o, b, i int)
  props C01
  auto
  induction i
  pattern lpos(L, o, b, i)
  ensures lpos(L, o, b, i) >= b + 2 * i
lemma ipos_mono(I [int]uint64, o, b, i, j int)
  props C01
  auto
  induction j
  requires 0 <= i && i < j
  pattern ipos(I, o, b, i), ipos(I, o, b, j)
  ensures ipos(I, o, b, j) >= ipos(I, o, b, i) + uvl(I[o + i])
lemma ipos_lo(I [int]uint64, o, b, i int)
  props C01
  auto
  induction i
  pattern ipos(I, o, b, i)
  ensures ipos(I, o, b, i) >= b + i

// a[p..] holds the first nk keys, nl leaf pointers, ni child pointers
fn enck(a [int]int, p int, K [int]pointer.ReferencedValue, o, w, n int) bool =
  forall i int {kpos(K, o, w, i)} :: 0 <= i && i < n ==>
    uvat(a, p + kpos(K, o, w, i), K[o + i].DataPointer.Offset)
    && uvat(a, p + kpos(K, o, w, i) + uvl(K[o + i].DataPointer.Offset), K[o + i].DataPointer.Length)
    && (w != 0 ==> mkbs(a, p + kpos(K, o, w, i) + uvl(K[o + i].DataPointer.Offset) + uvl(K[o + i].DataPointer.Length), len(K[o + i].Value)) == K[o + i].Value)
fn encl(a [int]int, p int, L [int]pointer.MemoryPointer, o, b, n int) bool =
  forall i int {lpos(L, o, b, i)} :: 0 <= i && i < n ==>
    uvat(a, p + lpos(L, o, b, i), L[o + i].Offset) && uvat(a, p + lpos(L, o, b, i) + uvl(L[o + i].Offset), L[o + i].Length)
fn enci(a [int]int, p int, I [int]uint64, o, b, n int) bool =
  forall i int {ipos(I, o, b, i)} :: 0 <= i && i < n ==> uvat(a, p + ipos(I, o, b, i), I[o + i])

fn enc(a [int]int, p int, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64) bool =
  le4(a, p) == (len(n.LeafPointers) > 0 ? 4294967296 - len(n.Keys) : len(n.Keys))
  && enck(a, p, K, sloff(n.Keys), n.Width, len(n.Keys))
  && encl(a, p, L, sloff(n.LeafPointers), kpos(K, sloff(n.Keys), n.Width, len(n.Keys)), len(n.LeafPointers))
  && enci(a, p, I, sloff(n.InternalPointers), lpos(L, sloff(n.LeafPointers), kpos(K, sloff(n.Keys), n.Width, len(n.Keys)), len(n.LeafPointers)), len(n.InternalPointers))

func (*BPTreeNode).Leaf(n) (r bool)
  ensures r <==> len(n.LeafPointers) > 0
func (*BPTreeNode).NumPointers(n) (r int)
  ensures r == len(n.InternalPointers) + len(n.LeafPointers)
func (*BPTreeNode).Pointer(n, i) (r pointer.MemoryPointer)
  requires 0 <= i && i < (len(n.LeafPointers) > 0 ? len(n.LeafPointers) : len(n.InternalPointers))
  ensures len(n.LeafPointers) > 0 ==> r == n.LeafPointers[i]
  ensures len(n.LeafPointers) == 0 ==> r.Offset == n.InternalPointers[i] && r.Length == 0

func (*BPTreeNode).Size(n) (r int)
  props C01
  let s = n
  requires npos(*n, elems(n.Keys), elems(n.LeafPointers), elems(n.InternalPointers)) < 1099511627776
  ensures [size] r == npos(*n, elems(n.Keys), elems(n.LeafPointers), elems(n.InternalPointers))
  loop 0
    modifies nothing
    invariant size == kpos(elems(n.Keys), sloff(n.Keys), n.Width, $i)
  loop 1
    modifies nothing
    invariant size == lpos(elems(s.LeafPointers), sloff(s.LeafPointers), kpos(elems(s.Keys), sloff(s.Keys), s.Width, len(s.Keys)), $i)
  loop 2
    modifies nothing
    invariant size == ipos(elems(s.InternalPointers), sloff(s.InternalPointers), lpos(elems(s.LeafPointers), sloff(s.LeafPointers), kpos(elems(s.Keys), sloff(s.Keys), s.Width, len(s.Keys)), len(s.LeafPointers)), $i)

func (*BPTreeNode).MarshalBinary(n) (r, err error)
  props C01
  let K = elems(n.Keys)
  let L = elems(n.LeafPointers)
  let I = elems(n.InternalPointers)
  let kb = kpos(K, sloff(n.Keys), n.Width, len(n.Keys))
  let lb = lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers))
  requires npos(*n, K, L, I) < 1099511627776
  requires 0 < len(n.Keys) && len(n.Keys) < 2147483648
  ensures [ok] err == nil && len(r) == npos(*n, K, L, I) && fresh(r)
  ensures [enc] enc(elems(r), r.off, *n, K, L, I)
  loop 0
    modifies elems(buf)
    invariant ct == kpos(K, sloff(n.Keys), n.Width, $i) && fresh(buf) && len(buf) == npos(*n, K, L, I)
    invariant le4(elems(buf), buf.off) == (len(n.LeafPointers) > 0 ? 4294967296 - len(n.Keys) : len(n.Keys))
    invariant enck(elems(buf), buf.off, K, sloff(n.Keys), n.Width, $i)
  loop 1
    modifies elems(buf)
    invariant ct == lpos(L, sloff(n.LeafPointers), kb, $i) && fresh(buf) && len(buf) == npos(*n, K, L, I)
    invariant le4(elems(buf), buf.off) == (len(n.LeafPointers) > 0 ? 4294967296 - len(n.Keys) : len(n.Keys))
    invariant enck(elems(buf), buf.off, K, sloff(n.Keys), n.Width, len(n.Keys))
    invariant encl(elems(buf), buf.off, L, sloff(n.LeafPointers), kb, $i)
  loop 2
    modifies elems(buf)
    invariant ct == ipos(I, sloff(n.InternalPointers), lb, $i) && fresh(buf) && len(buf) == npos(*n, K, L, I)
    invariant le4(elems(buf), buf.off) == (len(n.LeafPointers) > 0 ? 4294967296 - len(n.Keys) : len(n.Keys))
    invariant enck(elems(buf), buf.off, K, sloff(n.Keys), n.Width, len(n.Keys))
    invariant encl(elems(buf), buf.off, L, sloff(n.LeafPointers), kb, len(n.LeafPointers))
    invariant enci(elems(buf), buf.off, I, sloff(n.InternalPointers), lb, $i)

// ---- the decoder ----
fn dparse(p int, b Bs) Bs
extern (DataParser).Parse(p, b) (r)
  ensures bs(r) == dparse(p, bs(b))

fn un(a [int]int, o, n, p int) int = uvn(mkbs(a, o + p, n - p))
fn uv(a [int]int, o, n, p int) int = uvval(mkbs(a, o + p, n - p))
rec dkpos(a [int]int, o, n, w, i int) int = i <= 0 ? 4 :
  dkpos(a, o, n, w, i - 1) + un(a, o, n, dkpos(a, o, n, w, i - 1)) + un(a, o, n, dkpos(a, o, n, w, i - 1) + un(a, o, n, dkpos(a, o, n, w, i - 1))) + (w != 0 ? w - 1 : 0)
rec dlpos(a [int]int, o, n, b, i int) int = i <= 0 ? b :
  dlpos(a, o, n, b, i - 1) + un(a, o, n, dlpos(a, o, n, b, i - 1)) + un(a, o, n, dlpos(a, o, n, b, i - 1) + un(a, o, n, dlpos(a, o, n, b, i - 1)))
rec dipos(a [int]int, o, n, b, i int) int = i <= 0 ? b : dipos(a, o, n, b, i - 1) + un(a, o, n, dipos(a, o, n, b, i - 1))

opaque fn dleaf(a [int]int, o int) bool = le4(a, o) >= 2147483648
opaque fn dnk(a [int]int, o int) int = le4(a, o) >= 2147483648 ? 4294967296 - le4(a, o) : le4(a, o)
fn dkoff(a [int]int, o, n, w, i int) int = uv(a, o, n, dkpos(a, o, n, w, i))
fn dklen(a [int]int, o, n, w, i int) int = wrap(uint32, uv(a, o, n, dkpos(a, o, n, w, i) + un(a, o, n, dkpos(a, o, n, w, i))))
fn dloff(a [int]int, o, n, b, i int) int = uv(a, o, n, dlpos(a, o, n, b, i))
fn dllen(a [int]int, o, n, b, i int) int = wrap(uint32, uv(a, o, n, dlpos(a, o, n, b, i) + un(a, o, n, dlpos(a, o, n, b, i))))
fn dkval(a [int]int, o, n, w, i int) Bs = mkbs(a, o + dkpos(a, o, n, w, i) + un(a, o, n, dkpos(a, o, n, w, i)) + un(a, o, n, dkpos(a, o, n, w, i) + un(a, o, n, dkpos(a, o, n, w, i))), w - 1)

// the buffer holds a complete node
fn wfk(a [int]int, o, n, w int) bool =
  n >= 4 && dnk(a, o) > 0 && dnk(a, o) < 1000000000 &&
  (forall i int {dkpos(a, o, n, w, i)} :: 0 <= i && i < dnk(a, o) ==>
     un(a, o, n, dkpos(a, o, n, w, i)) > 0 && un(a, o, n, dkpos(a, o, n, w, i) + un(a, o, n, dkpos(a, o, n, w, i))) > 0
     && dkpos(a, o, n, w, i) + un(a, o, n, dkpos(a, o, n, w, i)) + un(a, o, n, dkpos(a, o, n, w, i) + un(a, o, n, dkpos(a, o, n, w, i))) + (w != 0 ? w - 1 : 0) <= n)
fn wfl(a [int]int, o, n, b, m int) bool =
  forall i int {dlpos(a, o, n, b, i)} :: 0 <= i && i < m ==>
     un(a, o, n, dlpos(a, o, n, b, i)) > 0 && un(a, o, n, dlpos(a, o, n, b, i) + un(a, o, n, dlpos(a, o, n, b, i))) > 0
     && dlpos(a, o, n, b, i) + un(a, o, n, dlpos(a, o, n, b, i)) + un(a, o, n, dlpos(a, o, n, b, i) + un(a, o, n, dlpos(a, o, n, b, i))) <= n
fn wfi(a [int]int, o, n, b, m int) bool =
  forall i int {dipos(a, o, n, b, i)} :: 0 <= i && i < m ==> un(a, o, n, dipos(a, o, n, b, i)) > 0 && dipos(a, o, n, b, i) + un(a, o, n, dipos(a, o, n, b, i)) <= n
fn wfdata(a [int]int, o, n int, data Bs) bool =
  forall i int {dkpos(a, o, n, 0, i)} :: 0 <= i && i < dnk(a, o) ==> dkoff(a, o, n, 0, i) + dklen(a, o, n, 0, i) <= len(data)

fn dval(a [int]int, o, n, w int, p int, data Bs, i int) Bs =
  w == 0 ? dparse(p, data[dkoff(a, o, n, w, i) : dkoff(a, o, n, w, i) + dklen(a, o, n, w, i)]) : dkval(a, o, n, w, i)

// n is what the decoder makes of the buffer
fn dkey(a [int]int, o, n, w int, p int, data Bs, K [int]pointer.ReferencedValue, ko, i int) bool =
  K[ko + i].DataPointer.Offset == dkoff(a, o, n, w, i) && K[ko + i].DataPointer.Length == dklen(a, o, n, w, i) && K[ko + i].Value == dval(a, o, n, w, p, data, i)
fn dkeys(a [int]int, o, n, w int, p int, data Bs, K [int]pointer.ReferencedValue, ko, nk int) bool =
  forall i int {K[ko + i]} :: 0 <= i && i < nk ==> dkey(a, o, n, w, p, data, K, ko, i)
fn dleafp(a [int]int, o, n, b int, L [int]pointer.MemoryPointer, lo, i int) bool =
  L[lo + i].Offset == dloff(a, o, n, b, i) && L[lo + i].Length == dllen(a, o, n, b, i)
fn dleaves(a [int]int, o, n, b int, L [int]pointer.MemoryPointer, lo, nl int) bool =
  forall i int {L[lo + i]} :: 0 <= i && i < nl ==> dleafp(a, o, n, b, L, lo, i)
fn dchild(a [int]int, o, n, b int, I [int]uint64, io, i int) bool = I[io + i] == uv(a, o, n, dipos(a, o, n, b, i))
fn dchildren(a [int]int, o, n, b int, I [int]uint64, io, ni int) bool =
  forall i int {I[io + i]} :: 0 <= i && i < ni ==> dchild(a, o, n, b, I, io, i)
fn decodable(a [int]int, o, n, w int) bool =
  wfk(a, o, n, w) && (dleaf(a, o) ? wfl(a, o, n, dkpos(a, o, n, w, dnk(a, o)), dnk(a, o)) : wfi(a, o, n, dkpos(a, o, n, w, dnk(a, o)), dnk(a, o) + 1))

func (*BPTreeNode).UnmarshalBinary(n, buf) (err error)
  props C01
  let A = elems(buf)
  let O = buf.off
  let M = len(buf)
  let W = n.Width
  let D = n.Data
  let P = n.DataParser
  let KB = dkpos(A, O, M, W, dnk(A, O))
  requires decodable(A, O, M, W)
  requires dleaf(A, O) ? len(n.InternalPointers) == 0 : len(n.LeafPointers) == 0
  requires W == 0 ==> P != nil && wfdata(A, O, M, D)
  modifies *n
  ensures [ok] err == nil && n.Width == W && n.Data == D && n.DataParser == P
  ensures [nkeys] len(n.Keys) == dnk(A, O) && fresh(n.Keys)
  ensures [alive] alive(n.Keys) && alive(n.LeafPointers) && alive(n.InternalPointers)
  ensures [shape] dleaf(A, O) ? len(n.LeafPointers) == dnk(A, O) && fresh(n.LeafPointers) && len(n.InternalPointers) == 0 : len(n.InternalPointers) == dnk(A, O) + 1 && fresh(n.InternalPointers) && len(n.LeafPointers) == 0
  ensures [nil] !dleaf(A, O) ==> n.LeafPointers == old(n.LeafPointers)
  ensures [keys] dkeys(A, O, M, W, P, D, elems(n.Keys), sloff(n.Keys), len(n.Keys))
  ensures [leaves] dleaves(A, O, M, KB, elems(n.LeafPointers), sloff(n.LeafPointers), len(n.LeafPointers))
  ensures [children] dchildren(A, O, M, KB, elems(n.InternalPointers), sloff(n.InternalPointers), len(n.InternalPointers))
  loop 0
    modifies elems(n.Keys)
    invariant m == dkpos(A, O, M, W, $i) && 4 <= m && m <= M && len(n.Keys) == dnk(A, O)
    invariant forall i int {n.Keys[i]} :: 0 <= i && i < $i ==> n.Keys[i].DataPointer.Offset == dkoff(A, O, M, W, i) && n.Keys[i].DataPointer.Length == dklen(A, O, M, W, i) && n.Keys[i].Value == dval(A, O, M, W, P, D, i)
  loop 1
    modifies elems(n.LeafPointers)
    invariant m == dlpos(A, O, M, KB, $i) && 4 <= m && m <= M
    invariant forall i int {n.LeafPointers[i]} :: 0 <= i && i < $i ==> n.LeafPointers[i].Offset == dloff(A, O, M, KB, i) && n.LeafPointers[i].Length == dllen(A, O, M, KB, i)
  loop 2
    modifies elems(n.InternalPointers)
    invariant 4 <= m && m <= M && (len(n.InternalPointers) > 0 ==> m == dipos(A, O, M, KB, $i))
    invariant forall i int {n.InternalPointers[i]} :: 0 <= i && i < $i ==> n.InternalPointers[i] == uv(A, O, M, dipos(A, O, M, KB, i))

// ---- decoding an encoding gives back the node ----
fn kok(K [int]pointer.ReferencedValue, ko, nk, w int) bool =
  forall i int {K[ko + i]} {kpos(K, ko, w, i)} :: 0 <= i && i < nk ==> 0 <= K[ko + i].DataPointer.Offset && K[ko + i].DataPointer.Offset < 18446744073709551616 && 0 <= K[ko + i].DataPointer.Length && K[ko + i].DataPointer.Length < 4294967296
     && (w != 0 ==> len(K[ko + i].Value) == w - 1)
fn lok(L [int]pointer.MemoryPointer, lo, b, nl int) bool =
  forall i int {L[lo + i]} {lpos(L, lo, b, i)} :: 0 <= i && i < nl ==> 0 <= L[lo + i].Offset && L[lo + i].Offset < 18446744073709551616 && 0 <= L[lo + i].Length && L[lo + i].Length < 4294967296
fn iok(I [int]uint64, io, b, ni int) bool =
  forall i int {I[io + i]} {ipos(I, io, b, i)} :: 0 <= i && i < ni ==> 0 <= I[io + i] && I[io + i] < 18446744073709551616

lemma dk_enc(a [int]int, o, n, w int, K [int]pointer.ReferencedValue, ko, nk, i int)
  props C01
  induction i
  requires enck(a, o, K, ko, w, nk) && kok(K, ko, nk, w) && 0 <= i && i <= nk && kpos(K, ko, w, nk) <= n && 0 <= w && w < 65536
  pattern dkpos(a, o, n, w, i), kpos(K, ko, w, i)
  mention kpos(K, ko, w, i - 1)
  mention dkpos(a, o, n, w, i - 1)
  mention kpos(K, ko, w, nk)
  let q = kpos(K, ko, w, i - 1)
  let k = K[ko + i - 1]
  assert i > 0 ==> q + klen(k, w) <= n && uvat(a, o + q, k.DataPointer.Offset) && uvat(a, o + q + uvl(k.DataPointer.Offset), k.DataPointer.Length)
  assert i > 0 ==> un(a, o, n, q) == uvl(k.DataPointer.Offset)
  assert i > 0 ==> un(a, o, n, q + uvl(k.DataPointer.Offset)) == uvl(k.DataPointer.Length)
  assert i > 0 ==> dkpos(a, o, n, w, i - 1) == q
  assert i > 0 ==> un(a, o, n, q + un(a, o, n, q)) == uvl(k.DataPointer.Length)
  ensures dkpos(a, o, n, w, i) == kpos(K, ko, w, i)
lemma dl_enc(a [int]int, o, n, b int, L [int]pointer.MemoryPointer, lo, nl, i int)
  props C01
  induction i
  requires encl(a, o, L, lo, b, nl) && lok(L, lo, b, nl) && 0 <= i && i <= nl && lpos(L, lo, b, nl) <= n && b >= 0
  pattern dlpos(a, o, n, b, i), lpos(L, lo, b, i)
  mention lpos(L, lo, b, i - 1)
  mention dlpos(a, o, n, b, i - 1)
  let q = lpos(L, lo, b, i - 1)
  let k = L[lo + i - 1]
  assert i > 0 ==> q + uvl(k.Offset) + uvl(k.Length) <= n && uvat(a, o + q, k.Offset) && uvat(a, o + q + uvl(k.Offset), k.Length)
  assert i > 0 ==> un(a, o, n, q) == uvl(k.Offset)
  assert i > 0 ==> un(a, o, n, q + uvl(k.Offset)) == uvl(k.Length)
  assert i > 0 ==> dlpos(a, o, n, b, i - 1) == q
  assert i > 0 ==> un(a, o, n, q + un(a, o, n, q)) == uvl(k.Length)
  ensures dlpos(a, o, n, b, i) == lpos(L, lo, b, i)
lemma di_enc(a [int]int, o, n, b int, I [int]uint64, io, ni, i int)
  props C01
  induction i
  requires enci(a, o, I, io, b, ni) && iok(I, io, b, ni) && 0 <= i && i <= ni && ipos(I, io, b, ni) <= n && b >= 0
  pattern dipos(a, o, n, b, i), ipos(I, io, b, i)
  mention ipos(I, io, b, i - 1)
  mention dipos(a, o, n, b, i - 1)
  let q = ipos(I, io, b, i - 1)
  let k = I[io + i - 1]
  assert i > 0 ==> q + uvl(k) <= n && uvat(a, o + q, k)
  assert i > 0 ==> un(a, o, n, q) == uvl(k)
  assert i > 0 ==> dipos(a, o, n, b, i - 1) == q
  ensures dipos(a, o, n, b, i) == ipos(I, io, b, i)

fn shape(n BPTreeNode) bool = 0 < len(n.Keys) && len(n.Keys) < 1000000000 && n.Width >= 0 && n.Width < 65536 &&
  (len(n.LeafPointers) > 0 ? len(n.LeafPointers) == len(n.Keys) && len(n.InternalPointers) == 0 : len(n.LeafPointers) == 0 && len(n.InternalPointers) == len(n.Keys) + 1)

lemma dk_un(a [int]int, o, n, w int, K [int]pointer.ReferencedValue, ko, nk, i int)
  props C01
  requires enck(a, o, K, ko, w, nk) && kok(K, ko, nk, w) && 0 <= i && i < nk && kpos(K, ko, w, nk) <= n && 0 <= w && w < 65536
  let q = kpos(K, ko, w, i)
  let k = K[ko + i]
  use dk_enc(a, o, n, w, K, ko, nk, i)
  use dk_enc(a, o, n, w, K, ko, nk, i + 1)
  mention kpos(K, ko, w, i + 1)
  mention kpos(K, ko, w, nk)
  assert q + klen(k, w) <= n && uvat(a, o + q, k.DataPointer.Offset) && uvat(a, o + q + uvl(k.DataPointer.Offset), k.DataPointer.Length)
  assert un(a, o, n, q) == uvl(k.DataPointer.Offset) && uv(a, o, n, q) == k.DataPointer.Offset
  assert un(a, o, n, q + uvl(k.DataPointer.Offset)) == uvl(k.DataPointer.Length) && uv(a, o, n, q + uvl(k.DataPointer.Offset)) == k.DataPointer.Length
  assert dkpos(a, o, n, w, i) == q
  ensures un(a, o, n, dkpos(a, o, n, w, i)) == uvl(k.DataPointer.Offset)
  ensures un(a, o, n, dkpos(a, o, n, w, i) + un(a, o, n, dkpos(a, o, n, w, i))) == uvl(k.DataPointer.Length)
  ensures dkoff(a, o, n, w, i) == k.DataPointer.Offset && dklen(a, o, n, w, i) == k.DataPointer.Length
  ensures w != 0 ==> dkval(a, o, n, w, i) == k.Value
  ensures dkpos(a, o, n, w, i) + uvl(k.DataPointer.Offset) + uvl(k.DataPointer.Length) + (w != 0 ? w - 1 : 0) <= n
lemma dl_un(a [int]int, o, n, b int, L [int]pointer.MemoryPointer, lo, nl, i int)
  props C01
  requires encl(a, o, L, lo, b, nl) && lok(L, lo, b, nl) && 0 <= i && i < nl && lpos(L, lo, b, nl) <= n && b >= 0
  let q = lpos(L, lo, b, i)
  let k = L[lo + i]
  use dl_enc(a, o, n, b, L, lo, nl, i)
  use dl_enc(a, o, n, b, L, lo, nl, i + 1)
  mention lpos(L, lo, b, i + 1)
  mention lpos(L, lo, b, nl)
  assert q + uvl(k.Offset) + uvl(k.Length) <= n && uvat(a, o + q, k.Offset) && uvat(a, o + q + uvl(k.Offset), k.Length)
  assert un(a, o, n, q) == uvl(k.Offset) && uv(a, o, n, q) == k.Offset
  assert un(a, o, n, q + uvl(k.Offset)) == uvl(k.Length) && uv(a, o, n, q + uvl(k.Offset)) == k.Length
  assert dlpos(a, o, n, b, i) == q
  ensures un(a, o, n, dlpos(a, o, n, b, i)) == uvl(k.Offset)
  ensures un(a, o, n, dlpos(a, o, n, b, i) + un(a, o, n, dlpos(a, o, n, b, i))) == uvl(k.Length)
  ensures dloff(a, o, n, b, i) == k.Offset && dllen(a, o, n, b, i) == k.Length
  ensures dlpos(a, o, n, b, i) + uvl(k.Offset) + uvl(k.Length) <= n
lemma di_un(a [int]int, o, n, b int, I [int]uint64, io, ni, i int)
  props C01
  requires enci(a, o, I, io, b, ni) && iok(I, io, b, ni) && 0 <= i && i < ni && ipos(I, io, b, ni) <= n && b >= 0
  let q = ipos(I, io, b, i)
  let k = I[io + i]
  use di_enc(a, o, n, b, I, io, ni, i)
  use di_enc(a, o, n, b, I, io, ni, i + 1)
  mention ipos(I, io, b, i + 1)
  mention ipos(I, io, b, ni)
  assert q + uvl(k) <= n && uvat(a, o + q, k)
  assert un(a, o, n, q) == uvl(k) && uv(a, o, n, q) == k
  assert dipos(a, o, n, b, i) == q
  ensures un(a, o, n, dipos(a, o, n, b, i)) == uvl(k)
  ensures uv(a, o, n, dipos(a, o, n, b, i)) == k
  ensures dipos(a, o, n, b, i) + uvl(k) <= n

lemma node_wf(a [int]int, o, m int, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64)
  props C01
  let ko = sloff(n.Keys)
  let w = n.Width
  let nk = len(n.Keys)
  let kb = kpos(K, ko, w, nk)
  let lb = lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers))
  requires shape(n) && enc(a, o, n, K, L, I) && npos(n, K, L, I) <= m
  requires kok(K, ko, nk, w) && lok(L, sloff(n.LeafPointers), kb, len(n.LeafPointers)) && iok(I, sloff(n.InternalPointers), lb, len(n.InternalPointers))
  assert dnk(a, o) == nk && (dleaf(a, o) <==> len(n.LeafPointers) > 0)
  assert kb <= lb && lb <= npos(n, K, L, I) && kb >= 4
  use dk_enc(a, o, m, w, K, ko, nk, nk)
  assert dkpos(a, o, m, w, nk) == kb
  use forall i int {dkpos(a, o, m, w, i)} :: dk_un(a, o, m, w, K, ko, nk, i)
  use forall i int {dlpos(a, o, m, kb, i)} :: dl_un(a, o, m, kb, L, sloff(n.LeafPointers), len(n.LeafPointers), i)
  use forall i int {dipos(a, o, m, kb, i)} :: di_un(a, o, m, kb, I, sloff(n.InternalPointers), len(n.InternalPointers), i)
  ensures [wfk] wfk(a, o, m, w)
  ensures [wfl] len(n.LeafPointers) > 0 ==> wfl(a, o, m, kb, nk)
  ensures [wfi] len(n.LeafPointers) == 0 ==> wfi(a, o, m, kb, nk + 1)
  ensures [head] dnk(a, o) == nk && (dleaf(a, o) <==> len(n.LeafPointers) > 0)
  ensures [order] 4 <= kb && kb <= lb && lb <= npos(n, K, L, I)
  ensures [keys] dkpos(a, o, m, w, nk) == kb

lemma node_decodable(a [int]int, o, m int, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64)
  props C01
  noauto
  let ko = sloff(n.Keys)
  let w = n.Width
  let nk = len(n.Keys)
  let kb = kpos(K, ko, w, nk)
  let lb = lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers))
  requires shape(n) && enc(a, o, n, K, L, I) && npos(n, K, L, I) <= m
  requires kok(K, ko, nk, w) && lok(L, sloff(n.LeafPointers), kb, len(n.LeafPointers)) && iok(I, sloff(n.InternalPointers), lb, len(n.InternalPointers))
  use node_wf(a, o, m, n, K, L, I)
  assert dkpos(a, o, m, w, dnk(a, o)) == kb
  ensures [complete] decodable(a, o, m, w)

// What is decoded is what was encoded (index by index: dkeys, dleaves and
// dchildren, which UnmarshalBinary establishes, are the conjunction over i).
lemma node_roundtrip(a [int]int, o, m, p int, data Bs, n BPTreeNode, K [int]pointer.ReferencedValue, L [int]pointer.MemoryPointer, I [int]uint64,
    r BPTreeNode, K1 [int]pointer.ReferencedValue, L1 [int]pointer.MemoryPointer, I1 [int]uint64, i int)
  props C01
  noauto
  let ko = sloff(n.Keys)
  let w = n.Width
  let nk = len(n.Keys)
  let kb = kpos(K, ko, w, nk)
  let lb = lpos(L, sloff(n.LeafPointers), kb, len(n.LeafPointers))
  requires shape(n) && enc(a, o, n, K, L, I) && npos(n, K, L, I) <= m
  requires kok(K, ko, nk, w) && lok(L, sloff(n.LeafPointers), kb, len(n.LeafPointers)) && iok(I, sloff(n.InternalPointers), lb, len(n.InternalPointers))
  requires w == 0 && 0 <= i && i < nk ==> K[ko + i].Value == dparse(p, data[K[ko + i].DataPointer.Offset : K[ko + i].DataPointer.Offset + K[ko + i].DataPointer.Length])
  requires len(r.Keys) == dnk(a, o)
  requires dleaf(a, o) ? len(r.LeafPointers) == dnk(a, o) && len(r.InternalPointers) == 0 : len(r.InternalPointers) == dnk(a, o) + 1 && len(r.LeafPointers) == 0
  requires 0 <= i && i < len(r.Keys) ==> dkey(a, o, m, w, p, data, K1, sloff(r.Keys), i)
  requires 0 <= i && i < len(r.LeafPointers) ==> dleafp(a, o, m, dkpos(a, o, m, w, dnk(a, o)), L1, sloff(r.LeafPointers), i)
  requires 0 <= i && i < len(r.InternalPointers) ==> dchild(a, o, m, dkpos(a, o, m, w, dnk(a, o)), I1, sloff(r.InternalPointers), i)
  use node_wf(a, o, m, n, K, L, I)
  assert dnk(a, o) == nk && (dleaf(a, o) <==> len(n.LeafPointers) > 0) && dkpos(a, o, m, w, nk) == kb && kb >= 4
  mention K1[sloff(r.Keys) + i]
  mention L1[sloff(r.LeafPointers) + i]
  mention I1[sloff(r.InternalPointers) + i]
  mention K[ko + i]
  use dk_un(a, o, m, w, K, ko, nk, i)
  use dl_un(a, o, m, kb, L, sloff(n.LeafPointers), len(n.LeafPointers), i)
  use di_un(a, o, m, kb, I, sloff(n.InternalPointers), len(n.InternalPointers), i)
  assert dkpos(a, o, m, w, dnk(a, o)) == kb && kb >= 4
  assert 0 <= i && i < nk ==> dkoff(a, o, m, w, i) == K[ko + i].DataPointer.Offset && dklen(a, o, m, w, i) == K[ko + i].DataPointer.Length
  assert 0 <= i && i < nk ==> K1[sloff(r.Keys) + i].DataPointer.Offset == K[ko + i].DataPointer.Offset
  assert 0 <= i && i < nk ==> K1[sloff(r.Keys) + i].DataPointer.Length == K[ko + i].DataPointer.Length
  assert 0 <= i && i < nk && w != 0 ==> K1[sloff(r.Keys) + i].Value == K[ko + i].Value
  assert 0 <= i && i < nk && w == 0 ==> K1[sloff(r.Keys) + i].Value == K[ko + i].Value
  ensures [count] len(r.Keys) == nk && len(r.LeafPointers) == len(n.LeafPointers) && len(r.InternalPointers) == len(n.InternalPointers)
  ensures [pointers] 0 <= i && i < nk ==> K1[sloff(r.Keys) + i].DataPointer == K[ko + i].DataPointer
  ensures [values] 0 <= i && i < nk ==> K1[sloff(r.Keys) + i].Value == K[ko + i].Value
  ensures [leaves] 0 <= i && i < len(n.LeafPointers) ==> L1[sloff(r.LeafPointers) + i] == L[sloff(n.LeafPointers) + i]
  ensures [children] 0 <= i && i < len(n.InternalPointers) ==> I1[sloff(r.InternalPointers) + i] == I[sloff(n.InternalPointers) + i]
