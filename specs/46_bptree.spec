// The B+ tree over pages, as a search tree in the sense of 45_tree.spec.
package bptree
// Keys of a tree are values the machine can hold (finitely many), so that the order
// of the keys embeds into the integers.
fn real(v pointer.ReferencedValue) bool
fn rank(v pointer.ReferencedValue) int
axiom rank_order: forall a, b pointer.ReferencedValue {rank(a), rank(b)} :: real(a) && real(b) ==> (rank(a) < rank(b) <==> rvcmp(a, b) < 0)
fn mpc(p pointer.MemoryPointer) int
fn mpo(c int) int
fn mpl(c int) int
axiom mpc_inj: forall p pointer.MemoryPointer {mpc(p)} :: mpo(mpc(p)) == p.Offset && mpl(mpc(p)) == p.Length
// nodes are what they contain
axiom node_canon: forall x, y int {same(x, y)} :: same(x, y) ==> x == y

// node x holds the kn keys at K[ko..] and the leaf pointers or children
hidden fn isnid(K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io int, x int) bool =
  (leaf(x) <==> ln > 0) && nk(x) == kn && (forall i int {ky(x, i)} {K[ko + i]} :: 0 <= i && i < kn ==> ky(x, i) == rank(K[ko + i]))
  && (ln > 0 ==> forall i int {pl(x, i)} {L[lo + i]} :: 0 <= i && i < kn ==> pl(x, i) == mpc(L[lo + i]))
  && (ln <= 0 ==> forall i int {ch(x, i)} {I[io + i]} :: 0 <= i && i <= kn ==> ch(x, i) == I[io + i])
lemma isnid_def(K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io int, x int)
  props C07, C08
  noauto
  ensures isnid(K, ko, kn, L, lo, ln, I, io, x) <==> ((leaf(x) <==> ln > 0) && nk(x) == kn && (forall i int {ky(x, i)} {K[ko + i]} :: 0 <= i && i < kn ==> ky(x, i) == rank(K[ko + i]))
  && (ln > 0 ==> forall i int {pl(x, i)} {L[lo + i]} :: 0 <= i && i < kn ==> pl(x, i) == mpc(L[lo + i]))
  && (ln <= 0 ==> forall i int {ch(x, i)} {I[io + i]} :: 0 <= i && i <= kn ==> ch(x, i) == I[io + i]))
fn nid(K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io int) int
axiom nid_is: forall K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io int {nid(K, ko, kn, L, lo, ln, I, io)} :: kn >= 0 ==> isnid(K, ko, kn, L, lo, ln, I, io, nid(K, ko, kn, L, lo, ln, I, io))
// the node at p in memory
fn mem(HN [int]BPTreeNode, SK [int][int]pointer.ReferencedValue, SL [int][int]pointer.MemoryPointer, SI [int][int]uint64, p int) int =
  nid(SK[arr(HN[p].Keys)], sloff(HN[p].Keys), len(HN[p].Keys), SL[arr(HN[p].LeafPointers)], sloff(HN[p].LeafPointers), len(HN[p].LeafPointers), SI[arr(HN[p].InternalPointers)], sloff(HN[p].InternalPointers))

// the node on a page with bytes B, for width w, parser p and data
fn dkv(w, p int, data Bs, B Bs, i int) pointer.ReferencedValue
axiom dkv_def: forall w, p int, data Bs, B Bs, i int {dkv(w, p, data, B, i)} ::
  dkv(w, p, data, B, i).DataPointer.Offset == dkoff(bsarr(B), 0, 4096, w, i) && dkv(w, p, data, B, i).DataPointer.Length == dklen(bsarr(B), 0, 4096, w, i) && dkv(w, p, data, B, i).Value == dval(bsarr(B), 0, 4096, w, p, data, i)
fn dlp(w int, B Bs, i int) pointer.MemoryPointer
axiom dlp_def: forall w int, B Bs, i int {dlp(w, B, i)} ::
  dlp(w, B, i).Offset == dloff(bsarr(B), 0, 4096, dkpos(bsarr(B), 0, 4096, w, dnk(bsarr(B), 0)), i) && dlp(w, B, i).Length == dllen(bsarr(B), 0, 4096, dkpos(bsarr(B), 0, 4096, w, dnk(bsarr(B), 0)), i)
fn dch(w int, B Bs, i int) int = uv(bsarr(B), 0, 4096, dipos(bsarr(B), 0, 4096, dkpos(bsarr(B), 0, 4096, w, dnk(bsarr(B), 0)), i))
hidden fn isdn(w, p int, data Bs, B Bs, x int) bool =
  (leaf(x) <==> dleaf(bsarr(B), 0)) && nk(x) == dnk(bsarr(B), 0) && (forall i int {ky(x, i)} {dkv(w, p, data, B, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == rank(dkv(w, p, data, B, i)))
  && (leaf(x) ==> forall i int {pl(x, i)} {dlp(w, B, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == mpc(dlp(w, B, i)))
  && (!leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == dch(w, B, i))
lemma isdn_def(w, p int, data Bs, B Bs, x int)
  props C07, C08
  noauto
  ensures isdn(w, p, data, B, x) <==> ((leaf(x) <==> dleaf(bsarr(B), 0)) && nk(x) == dnk(bsarr(B), 0) && (forall i int {ky(x, i)} {dkv(w, p, data, B, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == rank(dkv(w, p, data, B, i)))
  && (leaf(x) ==> forall i int {pl(x, i)} {dlp(w, B, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == mpc(dlp(w, B, i)))
  && (!leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == dch(w, B, i)))
fn dn(w, p int, data Bs, B Bs) int
axiom dn_is: forall w, p int, data Bs, B Bs {dn(w, p, data, B)} :: isdn(w, p, data, B, dn(w, p, data, B))
fn page(D [int]int, P int) Bs = mkbs(D, P, 4096)
// the nodes on the pages of the store
fn nmap(D [int]int, w, p int, data Bs) [int]int
axiom nmap_def: forall D [int]int, w, p int, data Bs, P int {nmap(D, w, p, data)[P]} :: nmap(D, w, p, data)[P] == dn(w, p, data, page(D, P))
// a page holds a complete node with keys the machine can hold
hidden fn goodB(w, p int, data Bs, B Bs) bool = decodable(bsarr(B), 0, 4096, w) && (w == 0 ==> wfdata(bsarr(B), 0, 4096, data)) && (forall i int {dkv(w, p, data, B, i)} :: 0 <= i && i < dnk(bsarr(B), 0) ==> real(dkv(w, p, data, B, i)))
lemma goodB_def(w, p int, data Bs, B Bs)
  props C07, C08
  noauto
  ensures goodB(w, p, data, B) <==> (decodable(bsarr(B), 0, 4096, w) && (w == 0 ==> wfdata(bsarr(B), 0, 4096, data)) && (forall i int {dkv(w, p, data, B, i)} :: 0 <= i && i < dnk(bsarr(B), 0) ==> real(dkv(w, p, data, B, i))))

// what is decoded from bytes does not depend on where they are
lemma dk_shift(a [int]int, o, w, i int)
  props C07, C08
  induction i
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  requires wfk(A, 0, 4096, w) && 0 <= i && i <= dnk(A, 0) && 0 <= w
  mention dkpos(a, o, 4096, w, i)
  mention dkpos(A, 0, 4096, w, i)
  mention dkpos(a, o, 4096, w, i - 1)
  mention dkpos(A, 0, 4096, w, i - 1)
  ensures dkpos(a, o, 4096, w, i) == dkpos(A, 0, 4096, w, i)
  ensures 4 <= dkpos(A, 0, 4096, w, i) && dkpos(A, 0, 4096, w, i) <= 4096
lemma dl_shift(a [int]int, o, b, i int)
  props C07, C08
  induction i
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  requires wfl(A, 0, 4096, b, i) && 0 <= i && 0 <= b && b <= 4096
  mention dlpos(a, o, 4096, b, i)
  mention dlpos(A, 0, 4096, b, i)
  mention dlpos(a, o, 4096, b, i - 1)
  mention dlpos(A, 0, 4096, b, i - 1)
  let q = dlpos(A, 0, 4096, b, i - 1)
  assert i > 0 ==> dlpos(a, o, 4096, b, i - 1) == q && 0 <= q && q <= 4096
  assert i > 0 ==> un(A, 0, 4096, q) == un(a, o, 4096, q) && un(A, 0, 4096, q) > 0
  assert i > 0 ==> un(A, 0, 4096, q + un(A, 0, 4096, q)) > 0 && q + un(A, 0, 4096, q) <= 4096
  assert i > 0 ==> un(A, 0, 4096, q + un(A, 0, 4096, q)) == un(a, o, 4096, q + un(a, o, 4096, q))
  ensures dlpos(a, o, 4096, b, i) == dlpos(A, 0, 4096, b, i)
  ensures 0 <= dlpos(A, 0, 4096, b, i) && dlpos(A, 0, 4096, b, i) <= 4096
lemma di_shift(a [int]int, o, b, i int)
  props C07, C08, C11
  induction i
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  requires wfi(A, 0, 4096, b, i) && 0 <= i && 0 <= b && b <= 4096
  mention dipos(a, o, 4096, b, i)
  mention dipos(A, 0, 4096, b, i)
  mention dipos(a, o, 4096, b, i - 1)
  mention dipos(A, 0, 4096, b, i - 1)
  let q = dipos(A, 0, 4096, b, i - 1)
  assert i > 0 ==> dipos(a, o, 4096, b, i - 1) == q && 0 <= q && q <= 4096
  assert i > 0 ==> un(A, 0, 4096, q) == un(a, o, 4096, q) && un(A, 0, 4096, q) > 0
  ensures dipos(a, o, 4096, b, i) == dipos(A, 0, 4096, b, i)
  ensures 0 <= dipos(A, 0, 4096, b, i) && dipos(A, 0, 4096, b, i) <= 4096
lemma head_shift(a [int]int, o int)
  props C07, C08, C11
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  let B = mkbs(a, o, 4096)
  mention B[0]
  mention B[1]
  mention B[2]
  mention B[3]
  mention A[0]
  mention A[1]
  mention A[2]
  mention A[3]
  assert le4(A, 0) == le4(a, o)
  mention dleaf(A, 0)
  mention dleaf(a, o)
  mention dnk(A, 0)
  mention dnk(a, o)
  ensures dleaf(A, 0) <==> dleaf(a, o)
  ensures dnk(A, 0) == dnk(a, o)
// pointwise: key, leaf pointer and child i
lemma key_shift(a [int]int, o, w, p int, data Bs, i int)
  props C07, C08
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  requires wfk(A, 0, 4096, w) && 0 <= i && i < dnk(A, 0) && 0 <= w
  use dk_shift(a, o, w, i)
  let q = dkpos(A, 0, 4096, w, i)
  assert un(A, 0, 4096, q) > 0
  assert un(A, 0, 4096, q) == un(a, o, 4096, q)
  assert un(A, 0, 4096, q + un(A, 0, 4096, q)) == un(a, o, 4096, q + un(a, o, 4096, q))
  ensures [off] dkoff(A, 0, 4096, w, i) == dkoff(a, o, 4096, w, i)
  ensures [len] dklen(A, 0, 4096, w, i) == dklen(a, o, 4096, w, i)
  ensures [val] dval(A, 0, 4096, w, p, data, i) == dval(a, o, 4096, w, p, data, i)
  ensures [wf] un(a, o, 4096, dkpos(a, o, 4096, w, i)) > 0 && un(a, o, 4096, dkpos(a, o, 4096, w, i) + un(a, o, 4096, dkpos(a, o, 4096, w, i))) > 0
     && dkpos(a, o, 4096, w, i) + un(a, o, 4096, dkpos(a, o, 4096, w, i)) + un(a, o, 4096, dkpos(a, o, 4096, w, i) + un(a, o, 4096, dkpos(a, o, 4096, w, i))) + (w != 0 ? w - 1 : 0) <= 4096
lemma leafp_shift(a [int]int, o, b, m, i int)
  props C07, C08
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  requires wfl(A, 0, 4096, b, m) && 0 <= i && i < m && 0 <= b && b <= 4096
  use dl_shift(a, o, b, i)
  let q = dlpos(A, 0, 4096, b, i)
  assert un(A, 0, 4096, q) > 0
  assert un(A, 0, 4096, q) == un(a, o, 4096, q)
  assert un(A, 0, 4096, q + un(A, 0, 4096, q)) == un(a, o, 4096, q + un(a, o, 4096, q))
  ensures [off] dloff(A, 0, 4096, b, i) == dloff(a, o, 4096, b, i)
  ensures [len] dllen(A, 0, 4096, b, i) == dllen(a, o, 4096, b, i)
  ensures [wf] un(a, o, 4096, dlpos(a, o, 4096, b, i)) > 0 && un(a, o, 4096, dlpos(a, o, 4096, b, i) + un(a, o, 4096, dlpos(a, o, 4096, b, i))) > 0
     && dlpos(a, o, 4096, b, i) + un(a, o, 4096, dlpos(a, o, 4096, b, i)) + un(a, o, 4096, dlpos(a, o, 4096, b, i) + un(a, o, 4096, dlpos(a, o, 4096, b, i))) <= 4096
lemma child_shift(a [int]int, o, b, m, i int)
  props C07, C08, C11
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  requires wfi(A, 0, 4096, b, m) && 0 <= i && i < m && 0 <= b && b <= 4096
  use di_shift(a, o, b, i)
  let q = dipos(A, 0, 4096, b, i)
  assert un(A, 0, 4096, q) == un(a, o, 4096, q)
  ensures [val] uv(A, 0, 4096, q) == uv(a, o, 4096, dipos(a, o, 4096, b, i))
  ensures [wf] un(a, o, 4096, dipos(a, o, 4096, b, i)) > 0 && dipos(a, o, 4096, b, i) + un(a, o, 4096, dipos(a, o, 4096, b, i)) <= 4096
// a good page can be decoded where it lies
lemma read_pre(a [int]int, o, w, p int, data Bs)
  props C07, C08
  noauto
  let B = mkbs(a, o, 4096)
  let A = bsarr(B)
  let kb = dkpos(A, 0, 4096, w, dnk(A, 0))
  requires goodB(w, p, data, B) && 0 <= w
  use goodB_def(w, p, data, B)
  use head_shift(a, o)
  use dk_shift(a, o, w, dnk(A, 0))
  use forall i int {dkpos(a, o, 4096, w, i)} :: key_shift(a, o, w, p, data, i)
  use forall i int {dkpos(a, o, 4096, 0, i)} :: key_shift(a, o, w, p, data, i)
  use forall i int {dlpos(a, o, 4096, kb, i)} :: leafp_shift(a, o, kb, dnk(A, 0), i)
  use forall i int {dipos(a, o, 4096, kb, i)} :: child_shift(a, o, kb, dnk(A, 0) + 1, i)
  mention wfk(A, 0, 4096, w)
  ensures [keys] wfk(a, o, 4096, w)
  ensures [leaf] dleaf(a, o) ==> wfl(a, o, 4096, dkpos(a, o, 4096, w, dnk(a, o)), dnk(a, o))
  ensures [inner] !dleaf(a, o) ==> wfi(a, o, 4096, dkpos(a, o, 4096, w, dnk(a, o)), dnk(a, o) + 1)
  ensures [data] w == 0 ==> wfdata(a, o, 4096, data)
// what the encoder relies on
fn keyok(w, p int, data Bs, v pointer.ReferencedValue) bool = real(v) && 0 <= v.DataPointer.Offset && v.DataPointer.Offset < 18446744073709551616 && 0 <= v.DataPointer.Length && v.DataPointer.Length < 4294967296
  && (w != 0 ==> len(v.Value) == w - 1) && (w == 0 ==> v.DataPointer.Offset + v.DataPointer.Length <= len(data) && v.Value == dparse(p, data[v.DataPointer.Offset : v.DataPointer.Offset + v.DataPointer.Length]))
fn ptrok(v pointer.MemoryPointer) bool = 0 <= v.Offset && v.Offset < 18446744073709551616 && 0 <= v.Length && v.Length < 4294967296
hidden fn keysok(w, p int, data Bs, K [int]pointer.ReferencedValue, ko, kn int) bool = forall i int {K[i]} :: ko <= i && i < ko + kn ==> keyok(w, p, data, K[i])
lemma keysok_def(w, p int, data Bs, K [int]pointer.ReferencedValue, ko, kn int)
  props C07, C08
  noauto
  ensures keysok(w, p, data, K, ko, kn) <==> (forall i int {K[i]} :: ko <= i && i < ko + kn ==> keyok(w, p, data, K[i]))
hidden fn ptrsok(L [int]pointer.MemoryPointer, lo, ln int) bool = forall i int {L[i]} :: lo <= i && i < lo + ln ==> ptrok(L[i])
lemma ptrsok_def(L [int]pointer.MemoryPointer, lo, ln int)
  props C07, C08
  noauto
  ensures ptrsok(L, lo, ln) <==> (forall i int {L[i]} :: lo <= i && i < lo + ln ==> ptrok(L[i]))
// the fields of key i are those of dkv
lemma dkv_key(a [int]int, o, w, p int, data Bs, K1 [int]pointer.ReferencedValue, ko, i int)
  props C07, C08
  noauto
  let B = mkbs(a, o, 4096)
  requires goodB(w, p, data, B) && 0 <= w && 0 <= i && i < dnk(bsarr(B), 0) && dkey(a, o, 4096, w, p, data, K1, ko, i)
  use goodB_def(w, p, data, B)
  use key_shift(a, o, w, p, data, i)
  mention dkv(w, p, data, B, i)
  ensures [key] K1[ko + i] == dkv(w, p, data, B, i)
  ensures [real] real(K1[ko + i])
  ensures [range] 0 <= K1[ko + i].DataPointer.Offset && K1[ko + i].DataPointer.Offset < 18446744073709551616 && 0 <= K1[ko + i].DataPointer.Length && K1[ko + i].DataPointer.Length < 4294967296
  ensures [width] w != 0 ==> len(K1[ko + i].Value) == w - 1
  ensures [data] w == 0 ==> K1[ko + i].DataPointer.Offset + K1[ko + i].DataPointer.Length <= len(data)
  ensures [parsed] w == 0 ==> K1[ko + i].Value == dparse(p, data[K1[ko + i].DataPointer.Offset : K1[ko + i].DataPointer.Offset + K1[ko + i].DataPointer.Length])
lemma dlp_ptr(a [int]int, o, w, p int, data Bs, L1 [int]pointer.MemoryPointer, lo, i int)
  props C07, C08
  noauto
  let B = mkbs(a, o, 4096)
  let n = dnk(bsarr(B), 0)
  requires goodB(w, p, data, B) && 0 <= w && 0 <= i && i < n && dleaf(a, o) && dleafp(a, o, 4096, dkpos(a, o, 4096, w, n), L1, lo, i)
  use goodB_def(w, p, data, B)
  use head_shift(a, o)
  use dk_shift(a, o, w, n)
  use leafp_shift(a, o, dkpos(a, o, 4096, w, n), n, i)
  mention dlp(w, B, i)
  ensures L1[lo + i] == dlp(w, B, i)
  ensures ptrok(L1[lo + i])
lemma dch_ptr(a [int]int, o, w, p int, data Bs, I1 [int]uint64, io, i int)
  props C07, C08
  noauto
  let B = mkbs(a, o, 4096)
  let n = dnk(bsarr(B), 0)
  requires goodB(w, p, data, B) && 0 <= w && 0 <= i && i <= n && !dleaf(a, o) && dchild(a, o, 4096, dkpos(a, o, 4096, w, n), I1, io, i)
  use goodB_def(w, p, data, B)
  use head_shift(a, o)
  use dk_shift(a, o, w, n)
  use child_shift(a, o, dkpos(a, o, 4096, w, n), n + 1, i)
  ensures I1[io + i] == dch(w, B, i)
lemma read_post(a [int]int, o, w, p int, data Bs, n BPTreeNode, K1 [int]pointer.ReferencedValue, L1 [int]pointer.MemoryPointer, I1 [int]uint64)
  props C07, C08
  noauto
  let B = mkbs(a, o, 4096)
  let x = nid(K1, sloff(n.Keys), len(n.Keys), L1, sloff(n.LeafPointers), len(n.LeafPointers), I1, sloff(n.InternalPointers))
  let y = dn(w, p, data, B)
  requires goodB(w, p, data, B) && 0 <= w && len(n.Keys) == dnk(a, o)
  requires dleaf(a, o) ? len(n.LeafPointers) == dnk(a, o) && len(n.InternalPointers) == 0 : len(n.InternalPointers) == dnk(a, o) + 1 && len(n.LeafPointers) == 0
  requires dkeys(a, o, 4096, w, p, data, K1, sloff(n.Keys), len(n.Keys))
  requires dleaves(a, o, 4096, dkpos(a, o, 4096, w, dnk(a, o)), L1, sloff(n.LeafPointers), len(n.LeafPointers))
  requires dchildren(a, o, 4096, dkpos(a, o, 4096, w, dnk(a, o)), I1, sloff(n.InternalPointers), len(n.InternalPointers))
  use goodB_def(w, p, data, B)
  use head_shift(a, o)
  use keysok_def(w, p, data, K1, sloff(n.Keys), len(n.Keys))
  use ptrsok_def(L1, sloff(n.LeafPointers), len(n.LeafPointers))
  mention x
  mention y
  assert len(n.Keys) > 0
  use isnid_def(K1, sloff(n.Keys), len(n.Keys), L1, sloff(n.LeafPointers), len(n.LeafPointers), I1, sloff(n.InternalPointers), x)
  use isdn_def(w, p, data, B, y)
  use forall i int {K1[sloff(n.Keys) + i]} :: dkv_key(a, o, w, p, data, K1, sloff(n.Keys), i)
  use forall i int {L1[sloff(n.LeafPointers) + i]} :: dlp_ptr(a, o, w, p, data, L1, sloff(n.LeafPointers), i)
  use forall i int {I1[sloff(n.InternalPointers) + i]} :: dch_ptr(a, o, w, p, data, I1, sloff(n.InternalPointers), i)
  use same_def(x, y)
  assert (leaf(x) <==> leaf(y)) && nk(x) == nk(y)
  assert forall i int {ky(x, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == ky(y, i)
  assert leaf(x) ==> forall i int {pl(x, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == pl(y, i)
  assert !leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == ch(y, i)
  assert same(x, y)
  ensures [node] x == y
  ensures [keys] keysok(w, p, data, K1, sloff(n.Keys), len(n.Keys))
  ensures [ptrs] ptrsok(L1, sloff(n.LeafPointers), len(n.LeafPointers))

// encoding/binary: a number is never read from fewer bytes than it is written with
axiom uvn_min: forall b Bs {uvn(b)} :: uvn(b) > 0 ==> uvl(uvval(b)) <= uvn(b)
// ---- a node read from a page fits into a page ----
lemma kfit(a [int]int, o, w int, K [int]pointer.ReferencedValue, ko, i int)
  props C07, C08
  induction i
  noauto
  requires wfk(a, o, 4096, w) && 0 <= w && 0 <= i && i <= dnk(a, o) && (w != 0 ==> forall j int {K[j]} :: ko <= j && j < ko + dnk(a, o) ==> len(K[j].Value) == w - 1)
  requires forall j int {K[ko + j]} :: 0 <= j && j < dnk(a, o) ==> K[ko + j].DataPointer.Offset == dkoff(a, o, 4096, w, j) && K[ko + j].DataPointer.Length == dklen(a, o, 4096, w, j)
  mention dkpos(a, o, 4096, w, i)
  mention dkpos(a, o, 4096, w, i - 1)
  mention kpos(K, ko, w, i)
  mention kpos(K, ko, w, i - 1)
  mention K[ko + (i - 1)]
  let q = dkpos(a, o, 4096, w, i - 1)
  assert i > 0 ==> uvl(dkoff(a, o, 4096, w, i - 1)) <= un(a, o, 4096, q)
  assert i > 0 ==> uvl(dklen(a, o, 4096, w, i - 1)) <= un(a, o, 4096, q + un(a, o, 4096, q))
  ensures kpos(K, ko, w, i) <= dkpos(a, o, 4096, w, i) && (i > 0 || i == 0 ==> dkpos(a, o, 4096, w, i) <= 4096)
lemma lfit(a [int]int, o, b, b2 int, L [int]pointer.MemoryPointer, lo, i int)
  props C07, C08
  induction i
  noauto
  requires wfl(a, o, 4096, b, i) && b2 <= b && b <= 4096 && 0 <= i
  requires forall j int {L[lo + j]} :: 0 <= j && j < i ==> dleafp(a, o, 4096, b, L, lo, j)
  mention dlpos(a, o, 4096, b, i)
  mention dlpos(a, o, 4096, b, i - 1)
  mention lpos(L, lo, b2, i)
  mention lpos(L, lo, b2, i - 1)
  mention L[lo + (i - 1)]
  let q = dlpos(a, o, 4096, b, i - 1)
  assert i > 0 ==> uvl(dloff(a, o, 4096, b, i - 1)) <= un(a, o, 4096, q)
  assert i > 0 ==> uvl(dllen(a, o, 4096, b, i - 1)) <= un(a, o, 4096, q + un(a, o, 4096, q))
  ensures lpos(L, lo, b2, i) <= dlpos(a, o, 4096, b, i) && dlpos(a, o, 4096, b, i) <= 4096
lemma ifit(a [int]int, o, b, b2 int, I [int]uint64, io, i int)
  props C07, C08, C11
  induction i
  noauto
  requires wfi(a, o, 4096, b, i) && b2 <= b && b <= 4096 && 0 <= i
  requires forall j int {I[io + j]} :: 0 <= j && j < i ==> dchild(a, o, 4096, b, I, io, j)
  mention dipos(a, o, 4096, b, i)
  mention dipos(a, o, 4096, b, i - 1)
  mention ipos(I, io, b2, i)
  mention ipos(I, io, b2, i - 1)
  mention I[io + (i - 1)]
  let q = dipos(a, o, 4096, b, i - 1)
  assert [h1] i > 0 ==> I[io + i - 1] == uv(a, o, 4096, q)
  assert [h2] i > 0 ==> uvl(I[io + i - 1]) <= un(a, o, 4096, q)
  assert [h3] i > 0 ==> dipos(a, o, 4096, b, i) == q + un(a, o, 4096, q)
  assert [h4] i > 0 ==> ipos(I, io, b2, i) == ipos(I, io, b2, i - 1) + uvl(I[io + i - 1])
  assert [h5] i > 0 ==> ipos(I, io, b2, i - 1) <= q
  ensures ipos(I, io, b2, i) <= dipos(a, o, 4096, b, i) && dipos(a, o, 4096, b, i) <= 4096
hidden fn chsok(I [int]uint64, io, n int) bool = forall i int {I[i]} :: io <= i && i < io + n ==> 0 <= I[i] && I[i] < 18446744073709551616
lemma chsok_def(I [int]uint64, io, n int)
  props C07, C08, C11
  noauto
  ensures chsok(I, io, n) <==> (forall i int {I[i]} :: io <= i && i < io + n ==> 0 <= I[i] && I[i] < 18446744073709551616)
lemma read_fits(a [int]int, o, w, p int, data Bs, n BPTreeNode, K1 [int]pointer.ReferencedValue, L1 [int]pointer.MemoryPointer, I1 [int]uint64)
  props C07, C08
  noauto
  let B = mkbs(a, o, 4096)
  let kb = dkpos(a, o, 4096, w, dnk(a, o))
  let k2 = kpos(K1, sloff(n.Keys), w, len(n.Keys))
  requires goodB(w, p, data, B) && 0 <= w && len(n.Keys) == dnk(a, o) && n.Width == w
  requires dleaf(a, o) ? len(n.LeafPointers) == dnk(a, o) && len(n.InternalPointers) == 0 : len(n.InternalPointers) == dnk(a, o) + 1 && len(n.LeafPointers) == 0
  requires dkeys(a, o, 4096, w, p, data, K1, sloff(n.Keys), len(n.Keys))
  requires dleaves(a, o, 4096, kb, L1, sloff(n.LeafPointers), len(n.LeafPointers))
  requires dchildren(a, o, 4096, kb, I1, sloff(n.InternalPointers), len(n.InternalPointers))
  use read_pre(a, o, w, p, data)
  use forall i int {K1[sloff(n.Keys) + i]} :: dkv_key(a, o, w, p, data, K1, sloff(n.Keys), i)
  use head_shift(a, o)
  use goodB_def(w, p, data, B)
  use kfit(a, o, w, K1, sloff(n.Keys), dnk(a, o))
  assert k2 <= kb && kb <= 4096
  use lfit(a, o, kb, k2, L1, sloff(n.LeafPointers), len(n.LeafPointers))
  mention lpos(L1, sloff(n.LeafPointers), k2, len(n.LeafPointers))
  use ifit(a, o, kb, k2, I1, sloff(n.InternalPointers), len(n.InternalPointers))
  mention ipos(I1, sloff(n.InternalPointers), k2, len(n.InternalPointers))
  use chsok_def(I1, sloff(n.InternalPointers), len(n.InternalPointers))
  ensures npos(n, K1, L1, I1) <= 4096
  ensures [children] chsok(I1, sloff(n.InternalPointers), len(n.InternalPointers))
fn fits(HN [int]BPTreeNode, SK [int][int]pointer.ReferencedValue, SL [int][int]pointer.MemoryPointer, SI [int][int]uint64, p int) bool =
  npos(HN[p], SK[arr(HN[p].Keys)], SL[arr(HN[p].LeafPointers)], SI[arr(HN[p].InternalPointers)]) <= 4096
  && chsok(SI[arr(HN[p].InternalPointers)], sloff(HN[p].InternalPointers), len(HN[p].InternalPointers))
fn nodein(HN [int]BPTreeNode, SK [int][int]pointer.ReferencedValue, SL [int][int]pointer.MemoryPointer, p, w, prs int, data Bs) bool =
  p != 0 && shape(HN[p]) && HN[p].Width == w
  && keysok(w, prs, data, SK[arr(HN[p].Keys)], sloff(HN[p].Keys), len(HN[p].Keys)) && ptrsok(SL[arr(HN[p].LeafPointers)], sloff(HN[p].LeafPointers), len(HN[p].LeafPointers))
func (*BPTree).readNode(t, ptr) (n *BPTreeNode, err error)
  props C07, C08
  let B = page(disk, ptr.Offset)
  requires t.PageFile != nil && ptr.Offset + 4096 <= size && size <= 4611686018427387904
  requires goodB(t.Width, t.DataParser, t.Data, B) && (t.Width == 0 ==> t.DataParser != nil)
  modifies pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [shape] err == nil ==> fresh(n) && nodein(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), n, t.Width, t.DataParser, t.Data)
  ensures [node] err == nil ==> mem(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), n) == dn(t.Width, t.DataParser, t.Data, B)
  ensures [fits] err == nil ==> fits(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), n)
  ensures [nil] err == nil && len(n.LeafPointers) == 0 ==> arr(n.LeafPointers) == 0
  ensures [fresh] err == nil ==> fresh(n.Keys) && (len(n.LeafPointers) > 0 ==> fresh(n.LeafPointers)) && (len(n.InternalPointers) > 0 ==> fresh(n.InternalPointers))
  ensures [alive] err == nil ==> alive(n) && alive(n.Keys) && alive(n.LeafPointers) && alive(n.InternalPointers)
  at beforecall UnmarshalBinary
    assert bs(buf) == B
  at beforecall UnmarshalBinary
    use read_pre(elems(buf), buf.off, t.Width, t.DataParser, t.Data)
  at aftercall UnmarshalBinary
    use read_post(elems(buf), buf.off, t.Width, t.DataParser, t.Data, *node, elems(node.Keys), elems(node.LeafPointers), elems(node.InternalPointers))
  at aftercall UnmarshalBinary
    use read_fits(elems(buf), buf.off, t.Width, t.DataParser, t.Data, *node, elems(node.Keys), elems(node.LeafPointers), elems(node.InternalPointers))

lemma mem_head(K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io int)
  props C07, C08
  noauto
  let x = nid(K, ko, kn, L, lo, ln, I, io)
  requires kn >= 0
  mention x
  use isnid_def(K, ko, kn, L, lo, ln, I, io, x)
  ensures (leaf(x) <==> ln > 0) && nk(x) == kn
lemma mem_child(K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io, i int)
  props C07, C08
  noauto
  let x = nid(K, ko, kn, L, lo, ln, I, io)
  requires kn >= 0 && 0 <= i && i <= kn && ln <= 0
  mention x
  use isnid_def(K, ko, kn, L, lo, ln, I, io, x)
  mention ch(x, i)
  ensures ch(x, i) == I[io + i]
// ---- searching a node ----
extern slices.BinarySearchFunc<pointer.CompareReferencedValues>(x, target, cmp) (place int, found bool)
  requires forall a, b int {x[a], x[b]} :: 0 <= a && a < b && b < len(x) ==> rvcmp(x[a], x[b]) < 0
  ensures 0 <= place && place <= len(x)
  ensures forall a int {x[a]} :: 0 <= a && a < place ==> rvcmp(x[a], target) < 0
  ensures forall a int {x[a]} :: place <= a && a < len(x) ==> rvcmp(x[a], target) >= 0
  ensures found <==> place < len(x) && rvcmp(x[place], target) == 0
lemma search_pre(w, p int, data Bs, K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io int)
  props C07, C08
  noauto
  let x = nid(K, ko, kn, L, lo, ln, I, io)
  requires kn >= 0 && keysok(w, p, data, K, ko, kn) && srt(x)
  use keysok_def(w, p, data, K, ko, kn)
  mention x
  use isnid_def(K, ko, kn, L, lo, ln, I, io, x)
  use srt_def(x)
  ensures forall a, b int {K[a], K[b]} :: ko <= a && a < b && b < ko + kn ==> rvcmp(K[a], K[b]) < 0
lemma search_post(w, p int, data Bs, K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io int, v pointer.ReferencedValue, i int)
  props C07, C08
  noauto
  let x = nid(K, ko, kn, L, lo, ln, I, io)
  requires kn >= 0 && keysok(w, p, data, K, ko, kn) && srt(x) && real(v)
  requires 0 <= i && i <= kn && (forall a int {K[a]} :: ko <= a && a < ko + i ==> rvcmp(K[a], v) < 0) && (forall a int {K[a]} :: ko + i <= a && a < ko + kn ==> rvcmp(K[a], v) >= 0)
  use keysok_def(w, p, data, K, ko, kn)
  mention x
  use isnid_def(K, ko, kn, L, lo, ln, I, io, x)
  mention ky(x, i - 1)
  mention ky(x, i)
  use rv_antisym(K[ko + i], v)
  use rv_eq(K[ko + i], v)
  use rv_range(K[ko + i], v)
  use srt_def(x)
  use idx_unique(x, rank(v) - 1, i)
  use idx_unique(x, rank(v), i)
  use idx_unique(x, rank(v), i + 1)
  mention ky(x, i + 1)
  mention rank(v)
  ensures [index] i == below(x, rank(v))
  ensures [found] i < kn ==> (rvcmp(K[ko + i], v) == 0 <==> ky(x, i) == rank(v))
  ensures [right] idx(x, rank(v)) == (i < kn && rvcmp(K[ko + i], v) == 0 ? i + 1 : i)

// ---- the tree ----
ghost oth [int]bool // pages that belong to something else (the meta page among them)
ghost th int     // height of the tree
ghost tl int     // level of a node on the way down
// every page reached holds a complete node, is in use and is not another.s page
fn pageok(D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, P int) bool = goodB(w, p, data, page(D, P)) && P + 4096 <= n && U[P] && !X[P]
hidden fn pages(D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, r, h int) bool = forall k, l int {tp(nmap(D, w, p, data), r, k, l)} :: lev(l, h) ==> pageok(D, n, U, w, p, data, X, tp(nmap(D, w, p, data), r, k, l))
lemma pages_def(D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, r, h int)
  props C07, C08
  noauto
  ensures pages(D, n, U, w, p, data, X, r, h) <==> (forall k, l int {tp(nmap(D, w, p, data), r, k, l)} :: lev(l, h) ==> pageok(D, n, U, w, p, data, X, tp(nmap(D, w, p, data), r, k, l)))
lemma pages_at(D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, r, h, k, l int)
  props C07, C08
  noauto
  requires pages(D, n, U, w, p, data, X, r, h) && lev(l, h)
  use pages_def(D, n, U, w, p, data, X, r, h)
  mention tp(nmap(D, w, p, data), r, k, l)
  ensures pageok(D, n, U, w, p, data, X, tp(nmap(D, w, p, data), r, k, l))
fn treeok(D [int]int, n int, U [int]bool, w, p int, data Bs, X [int]bool, r, h int) bool = n <= 4611686018427387904 && W(nmap(D, w, p, data), r, h) && pages(D, n, U, w, p, data, X, r, h)
fn tenv(t BPTree) bool = t.PageFile != nil && t.MetaPage != nil && (t.Width == 0 ==> t.DataParser != nil)
fn troot(D [int]int, t BPTree) int = le8(D, mpos(t.MetaPage))
fn tnone(D [int]int, t BPTree) bool = le4(D, mpos(t.MetaPage) + 8) == 0

func (*BPTree).root(t) (n *BPTreeNode, mp pointer.MemoryPointer, err error)
  props C07, C08
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  requires tenv(*t) && (tnone(disk, *t) || treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th))
  modifies pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [empty] err == nil ==> (n == 0 <==> tnone(disk, *t))
  ensures [offset] err == nil ==> mp.Offset == r
  ensures [shape] err == nil && n != 0 ==> fresh(n) && nodein(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), n, t.Width, t.DataParser, t.Data)
  ensures [node] err == nil && n != 0 ==> mem(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), n) == N[r]
  ensures [fits] err == nil && n != 0 ==> fits(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), n)
  ensures [nil] err == nil && n != 0 && len(n.LeafPointers) == 0 ==> arr(n.LeafPointers) == 0
  ensures [fresh] err == nil && n != 0 ==> fresh(n.Keys) && (len(n.LeafPointers) > 0 ==> fresh(n.LeafPointers)) && (len(n.InternalPointers) > 0 ==> fresh(n.InternalPointers))
  ensures [alive] err == nil && n != 0 ==> alive(n) && alive(n.Keys) && alive(n.LeafPointers) && alive(n.InternalPointers)
  at beforecall readNode
    use W_height(N, r, th)
  at beforecall readNode
    use pages_at(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th, 0, 0)
  at beforecall readNode
    use W_node(N, r, th, 0, 0)
  at beforecall readNode
    use at_top(N, r, 0, 0)

// a step of the way down for key k: the node at level l
fn onpath(HN [int]BPTreeNode, SK [int][int]pointer.ReferencedValue, SL [int][int]pointer.MemoryPointer, SI [int][int]uint64, w, p int, data Bs, N [int]int, r, k, l int, q int) bool =
  nodein(HN, SK, SL, q, w, p, data) && mem(HN, SK, SL, SI, q) == nd(N, r, k, l)
func (*BPTree).traverse(t, key, node, ptr) (path, err error)
  props C07, C08
  merge
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  let k = rank(key)
  let l = tl
  let SK = S(pointer.ReferencedValue)
  let SL = S(pointer.MemoryPointer)
  let SI = S(uint64)
  requires tenv(*t) && treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th) && real(key) && lev(tl, th)
  requires onpath(H(BPTreeNode), SK, SL, SI, t.Width, t.DataParser, t.Data, N, r, k, tl, node) && ptr.Offset == tp(N, r, k, tl)
  requires fits(H(BPTreeNode), SK, SL, SI, node)
  requires len(node.LeafPointers) == 0 ==> arr(node.LeafPointers) == 0
  requires alive(node.Keys) && alive(node.LeafPointers) && alive(node.InternalPointers)
  modifies pos, iofail, tl
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures tl == old(tl)
  ensures [length] err == nil ==> len(path) == th - tl + 1 && fresh(path)
  ensures [last] err == nil ==> path[th - tl].node == node
  ensures [nodes] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> onpath(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, k, th - i, path[i].node)
  ensures [pages] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> path[i].ptr.Offset == tp(N, r, k, th - i)
  ensures [index] err == nil ==> forall i int {path[i]} :: 0 < i && i < len(path) ==> path[i].index == ix(N, r, k, th - i)
  ensures [leaf] err == nil ==> path[0].index == below(nd(N, r, k, th), k)
  ensures [fresh] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) - 1 ==> fresh(path[i].node)
  ensures [fits] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> fits(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), path[i].node)
  ensures [freshkeys] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) - 1 ==> fresh(path[i].node.Keys) && (len(path[i].node.LeafPointers) > 0 ==> fresh(path[i].node.LeafPointers)) && (len(path[i].node.InternalPointers) > 0 ==> fresh(path[i].node.InternalPointers))
  ensures [inner] err == nil ==> forall i int {path[i]} :: 0 < i && i < len(path) ==> len(path[i].node.InternalPointers) > 0 && cap(path[i].node.InternalPointers) > 0 && len(path[i].node.LeafPointers) == 0 && arr(path[i].node.LeafPointers) == 0
  ensures [caps] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> cap(path[i].node.Keys) > 0
  ensures [arrays] err == nil ==> forall i, j int {path[i], path[j]} :: 0 <= i && i < j && j < len(path) ==> arr(path[i].node.Keys) != arr(path[j].node.Keys) && (i > 0 ==> arr(path[i].node.InternalPointers) != arr(path[j].node.InternalPointers))
  ensures [distinct] err == nil ==> forall i, j int {path[i], path[j]} :: 0 <= i && i < j && j < len(path) ==> path[i].node != path[j].node
  ensures [alive] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> alive(path[i].node) && alive(path[i].node.Keys) && alive(path[i].node.LeafPointers) && alive(path[i].node.InternalPointers)
  at return
    set tl = old(tl)
  at entry
    use W_node(N, r, th, k, tl)
  at entry
    use mem_head(elems(node.Keys), sloff(node.Keys), len(node.Keys), elems(node.LeafPointers), sloff(node.LeafPointers), len(node.LeafPointers), elems(node.InternalPointers), sloff(node.InternalPointers))
  at beforecall readNode
    use mem_child(elems(node.Keys), sloff(node.Keys), len(node.Keys), elems(node.LeafPointers), sloff(node.LeafPointers), len(node.LeafPointers), elems(node.InternalPointers), sloff(node.InternalPointers), index)
  at beforecall readNode
    use at_step(N, r, k, tl + 1)
  at beforecall readNode
    use pages_at(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th, k, tl + 1)
  at beforecall readNode
    use W_node(N, r, th, k, tl + 1)
  at beforecall traverse
    set tl = tl + 1
  at beforecall BinarySearchFunc
    use search_pre(t.Width, t.DataParser, t.Data, elems(node.Keys), sloff(node.Keys), len(node.Keys), elems(node.LeafPointers), sloff(node.LeafPointers), len(node.LeafPointers), elems(node.InternalPointers), sloff(node.InternalPointers))
  at aftercall BinarySearchFunc
    use search_post(t.Width, t.DataParser, t.Data, elems(node.Keys), sloff(node.Keys), len(node.Keys), elems(node.LeafPointers), sloff(node.LeafPointers), len(node.LeafPointers), elems(node.InternalPointers), sloff(node.InternalPointers), key, $place)

// ---- iterators ----
ghost ik int     // the key whose path an iterator's records are
ghost it int     // the level at which the last step turned
// from record i on, the records are the path of key k
fn recs(HN [int]BPTreeNode, SK [int][int]pointer.ReferencedValue, SL [int][int]pointer.MemoryPointer, SI [int][int]uint64, w, p int, data Bs, N [int]int, r, k, h int, R [int]TraversalRecord, ro, i int) bool =
  (forall j int {R[j]} :: ro + i <= j && j <= ro + h ==> onpath(HN, SK, SL, SI, w, p, data, N, r, k, h - (j - ro), R[j].node))
  && (forall j int {R[j]} :: ro + i <= j && ro < j && j <= ro + h ==> R[j].index == ix(N, r, k, h - (j - ro)))
// to the next child at level t, for the records from level t up
lemma step_next(N [int]int, r, h, k, t, l int)
  props C08
  noauto
  let s = nextsep(N, r, k, t)
  requires W(N, r, h) && 0 <= l && l <= t && t < h && ix(N, r, k, t) < nk(nd(N, r, k, t))
  use next_at(N, r, h, k, t)
  use W_path(N, r, h, s, k, t, l)
  ensures tp(N, r, s, l) == tp(N, r, k, l) && ix(N, r, s, l) == ix(N, r, k, l) + (l == t ? 1 : 0)
lemma step_prev(N [int]int, r, h, k, t, l int)
  props C08
  noauto
  let s = prevsep(N, r, k, t)
  requires W(N, r, h) && 0 <= l && l <= t && t < h && ix(N, r, k, t) > 0
  use prev_at(N, r, h, k, t)
  use W_path(N, r, h, s, k, t, l)
  ensures tp(N, r, s, l) == tp(N, r, k, l) && ix(N, r, s, l) == ix(N, r, k, l) - (l == t ? 1 : 0)
lemma right_more(N [int]int, r, k, t, h int)
  props C08
  noauto
  requires rightmost(N, r, k, t, h) && ix(N, r, k, h) == nk(nd(N, r, k, h))
  use rightmost_def(N, r, k, t, h)
  use rightmost_def(N, r, k, t, h + 1)
  ensures rightmost(N, r, k, t, h + 1)
lemma left_more(N [int]int, r, k, t, h int)
  props C08
  noauto
  requires leftmost(N, r, k, t, h) && ix(N, r, k, h) == 0
  use leftmost_def(N, r, k, t, h)
  use leftmost_def(N, r, k, t, h + 1)
  ensures leftmost(N, r, k, t, h + 1)
lemma right_none(N [int]int, r, k, t, h int)
  props C08
  noauto
  requires t >= h
  use rightmost_def(N, r, k, t, h)
  use leftmost_def(N, r, k, t, h)
  ensures rightmost(N, r, k, t, h) && leftmost(N, r, k, t, h)

func (*TraversalIterator).incr(p, i, delta) (ok bool)
  props C08
  let t = p.tree
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  let k = ik
  let l = th - i
  let R0 = p.records
  let q = p.records[0].index
  let L = nd(N, r, ik, th)
  requires tenv(*t) && treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th)
  requires t != nil && p.err == nil && len(p.records) == th + 1 && 0 <= i && i <= th + 1 && (delta == 1 || delta == 0 - 1)
  requires recs(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, ik, th, elems(p.records), sloff(p.records), i)
  requires forall j int {p.records[j]} :: 0 <= j && j < len(p.records) ==> alive(p.records[j].node) && alive(p.records[j].node.Keys) && alive(p.records[j].node.LeafPointers) && alive(p.records[j].node.InternalPointers)
  requires i == 0 ==> 0 <= q && q <= nk(L) && (delta == 1 ==> q < nk(L))
  modifies pos, iofail, ik, it, *p, elems(p.records)
  ensures [io] p.err == nil ==> (iofail <==> old(iofail))
  ensures [err] ok ==> p.err == nil
  ensures [kept] p.records == R0 && p.tree == t && p.key == old(p.key)
  ensures [below] forall j int {p.records[j]} :: 0 <= j && j < i ==> p.records[j] == old(p.records[j])
  ensures [alive] forall j int {p.records[j]} :: 0 <= j && j < len(p.records) ==> alive(p.records[j].node) && alive(p.records[j].node.Keys) && alive(p.records[j].node.LeafPointers) && alive(p.records[j].node.InternalPointers)
  ensures [path] ok ==> recs(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, ik, th, elems(p.records), sloff(p.records), i)
  ensures [next] ok && i > 0 && delta == 1 ==> lev(it, l) && ix(N, r, k, it) < nk(nd(N, r, k, it)) && rightmost(N, r, k, it + 1, l + 1) && ik == nextsep(N, r, k, it)
  ensures [prev] ok && i > 0 && delta == 0 - 1 ==> lev(it, l) && ix(N, r, k, it) > 0 && leftmost(N, r, k, it + 1, l + 1) && ik == prevsep(N, r, k, it)
  ensures [last] !ok && p.err == nil && i > 0 && delta == 1 ==> rightmost(N, r, k, 0, l + 1)
  ensures [first] !ok && p.err == nil && i > 0 && delta == 0 - 1 ==> leftmost(N, r, k, 0, l + 1)
  ensures [nextentry] ok && i == 0 && delta == 1 ==> (q + 1 < nk(L) ? p.records[0].index == q + 1 && ik == k
     : q + 1 == nk(L) && p.records[0].index == 0 && 0 <= it && it < th && ix(N, r, k, it) < nk(nd(N, r, k, it)) && rightmost(N, r, k, it + 1, th) && ik == nextsep(N, r, k, it))
  ensures [preventry] ok && i == 0 && delta == 0 - 1 ==> (q > 0 ? p.records[0].index == q - 1 && ik == k
     : p.records[0].index == nk(nd(N, r, ik, th)) - 1 && 0 <= it && it < th && ix(N, r, k, it) > 0 && leftmost(N, r, k, it + 1, th) && ik == prevsep(N, r, k, it))
  ensures [lastentry] !ok && p.err == nil && i == 0 && delta == 1 ==> q + 1 == nk(L) && rightmost(N, r, k, 0, th)
  ensures [firstentry] !ok && p.err == nil && i == 0 && delta == 0 - 1 ==> q == 0 && leftmost(N, r, k, 0, th)
  at entry
    set ik = i > 0 && i <= th && delta == 1 && ix(N, r, k, l) < nk(nd(N, r, k, l)) ? nextsep(N, r, k, l) : i > 0 && i <= th && delta == 0 - 1 && ix(N, r, k, l) > 0 ? prevsep(N, r, k, l) : ik
  at entry
    set it = l
  at entry
    use W_node(N, r, th, k, l)
  at entry
    use idx_range(nd(N, r, k, l), k)
  at entry
    use right_none(N, r, k, l + 1, l + 1)
  at entry
    use right_none(N, r, k, 0, 0)
  at beforecall NumPointers
    use mem_head(elems(p.records[i].node.Keys), sloff(p.records[i].node.Keys), len(p.records[i].node.Keys), elems(p.records[i].node.LeafPointers), sloff(p.records[i].node.LeafPointers), len(p.records[i].node.LeafPointers), elems(p.records[i].node.InternalPointers), sloff(p.records[i].node.InternalPointers))
  at aftercall incr
    use right_more(N, r, k, it + 1, l)
  at aftercall incr
    use right_more(N, r, k, 0, l)
  at aftercall incr
    use left_more(N, r, k, it + 1, l)
  at aftercall incr
    use left_more(N, r, k, 0, l)
  at beforecall Pointer
    use W_node(N, r, th, ik, l - 1)
  at beforecall Pointer
    use idx_range(nd(N, r, ik, l - 1), ik)
  at beforecall Pointer
    use mem_head(elems(p.records[i + 1].node.Keys), sloff(p.records[i + 1].node.Keys), len(p.records[i + 1].node.Keys), elems(p.records[i + 1].node.LeafPointers), sloff(p.records[i + 1].node.LeafPointers), len(p.records[i + 1].node.LeafPointers), elems(p.records[i + 1].node.InternalPointers), sloff(p.records[i + 1].node.InternalPointers))
  at beforecall Pointer
    use mem_child(elems(p.records[i + 1].node.Keys), sloff(p.records[i + 1].node.Keys), len(p.records[i + 1].node.Keys), elems(p.records[i + 1].node.LeafPointers), sloff(p.records[i + 1].node.LeafPointers), len(p.records[i + 1].node.LeafPointers), elems(p.records[i + 1].node.InternalPointers), sloff(p.records[i + 1].node.InternalPointers), p.records[i + 1].index)
  at beforecall readNode
    use at_step(N, r, ik, l)
  at beforecall readNode
    use pages_at(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th, ik, l)
  at beforecall readNode
    use W_node(N, r, th, ik, l)
  at aftercall readNode
    use mem_head(elems($n.Keys), sloff($n.Keys), len($n.Keys), elems($n.LeafPointers), sloff($n.LeafPointers), len($n.LeafPointers), elems($n.InternalPointers), sloff($n.InternalPointers))
  at return
    use next_path(N, r, th, k, it, l)
  at return
    use prev_path(N, r, th, k, it, l)
  at return
    use forall m int {tp(N, r, ik, m)} :: step_next(N, r, th, k, l, m)
  at return
    use forall m int {tp(N, r, ik, m)} :: step_prev(N, r, th, k, l, m)

func (*TraversalIterator).init(p) (ok bool)
  props C08
  let t = p.tree
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  let k = rank(p.key)
  requires t != nil && tenv(*t) && (tnone(disk, *t) || treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th)) && p.err == nil && real(p.key)
  modifies pos, iofail, tl, *p
  ensures [io] p.err == nil ==> (iofail <==> old(iofail))
  ensures [kept] p.tree == t && p.key == old(p.key) && (ok ==> p.err == nil)
  ensures [empty] !ok && p.err == nil ==> tnone(disk, *t)
  ensures [tree] ok ==> !tnone(disk, *t)
  ensures [none] !ok ==> p.records == old(p.records)
  ensures [path] ok ==> len(p.records) == th + 1 && cap(p.records) > 0 && fresh(p.records) && recs(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, k, th, elems(p.records), sloff(p.records), 0)
  ensures [leaf] ok ==> p.records[0].index == below(nd(N, r, k, th), k)
  ensures [alive] ok ==> forall j int {p.records[j]} :: 0 <= j && j < len(p.records) ==> alive(p.records[j].node) && alive(p.records[j].node.Keys) && alive(p.records[j].node.LeafPointers) && alive(p.records[j].node.InternalPointers)
  at beforecall traverse
    set tl = 0
  at beforecall traverse
    use W_height(N, r, th)
  at beforecall traverse
    use at_top(N, r, k, 0)
  at return
    set tl = old(tl)
// the first key of a leaf not below k, and the last one below, around k itself
lemma has_below(N [int]int, r, h, k int)
  props C08
  noauto
  requires W(N, r, h) && has(N, r, h, k)
  let L = nd(N, r, k, h)
  use W_height(N, r, h)
  use W_node(N, r, h, k, h)
  use idx_range(L, k)
  use idx_unique(L, k - 1, ix(N, r, k, h) - 1)
  use srt_def(L)
  mention ky(L, ix(N, r, k, h) - 2)
  mention ky(L, ix(N, r, k, h) - 1)
  ensures below(L, k) == ix(N, r, k, h) - 1
lemma next_in_leaf(N [int]int, r, h, k, z int)
  props C08
  noauto
  let L = nd(N, r, k, h)
  let i = ix(N, r, k, h)
  requires W(N, r, h) && i < nk(L) && has(N, r, h, z) && z > k
  use W_height(N, r, h)
  use W_node(N, r, h, k, h)
  use idx_range(L, k)
  use idx_key(L, k, i)
  use has_key(N, r, h, k, i)
  let f = ky(L, i)
  use conv(N, r, h, k, z, f, h)
  let zi = ix(N, r, z, h) - 1
  use W_node(N, r, h, z, h)
  use idx_range(nd(N, r, z, h), z)
  use idx_key(L, k, zi)
  use srt_def(L)
  mention ky(L, zi)
  ensures f <= z && f > k

// an iterator at the entry k of the tree
fn onentry(HN [int]BPTreeNode, SK [int][int]pointer.ReferencedValue, SL [int][int]pointer.MemoryPointer, SI [int][int]uint64, w, p int, data Bs, N [int]int, r, k, h int, R [int]TraversalRecord, ro int) bool =
  recs(HN, SK, SL, SI, w, p, data, N, r, k, h, R, ro, 0) && has(N, r, h, k) && R[ro].index == ix(N, r, k, h) - 1
func (*TraversalIterator).Next(p) (ok bool)
  props C08
  let t = p.tree
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  let fresh0 = p.records == nil
  let k = p.records == nil ? rank(p.key) : ik
  requires t != nil && tenv(*t) && (tnone(disk, *t) || treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th)) && p.err == nil && real(p.key)
  requires p.records != nil ==> !tnone(disk, *t) && len(p.records) == th + 1 && onentry(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, ik, th, elems(p.records), sloff(p.records))
  requires p.records != nil ==> forall j int {p.records[j]} :: 0 <= j && j < len(p.records) ==> alive(p.records[j].node) && alive(p.records[j].node.Keys) && alive(p.records[j].node.LeafPointers) && alive(p.records[j].node.InternalPointers)
  modifies pos, iofail, ik, it, tl, *p, elems(p.records)
  ensures [io] p.err == nil ==> (iofail <==> old(iofail))
  ensures [err] ok ==> p.err == nil
  ensures [kept] p.tree == t && p.key == old(p.key)
  ensures [entry] ok ==> !tnone(disk, *t) && len(p.records) == th + 1 && p.records != nil && onentry(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, ik, th, elems(p.records), sloff(p.records))
  ensures [alive] ok ==> forall j int {p.records[j]} :: 0 <= j && j < len(p.records) ==> alive(p.records[j].node) && alive(p.records[j].node.Keys) && alive(p.records[j].node.LeafPointers) && alive(p.records[j].node.InternalPointers)
  ensures [after] ok ==> (fresh0 ? k <= ik : k < ik)
  ensures [next] ok ==> forall z int {tp(N, r, z, th)} :: has(N, r, th, z) && (fresh0 ? k <= z : k < z) ==> ik <= z
  ensures [end] !ok && p.err == nil && !tnone(disk, *t) ==> forall z int {tp(N, r, z, th)} :: has(N, r, th, z) ==> (fresh0 ? z < k : z <= k)
  at entry
    set ik = p.records == nil ? rank(p.key) : ik
  at beforecall incr
    use W_node(N, r, th, ik, th)
  at beforecall incr
    use idx_range(nd(N, r, ik, th), ik)
  at beforecall incr
    use idx_range(nd(N, r, ik, th), ik - 1)
  at beforecall NumPointers
    use W_node(N, r, th, ik, th)
  at beforecall NumPointers
    use idx_range(nd(N, r, ik, th), ik - 1)
  at beforecall NumPointers
    use mem_head(elems(p.records[0].node.Keys), sloff(p.records[0].node.Keys), len(p.records[0].node.Keys), elems(p.records[0].node.LeafPointers), sloff(p.records[0].node.LeafPointers), len(p.records[0].node.LeafPointers), elems(p.records[0].node.InternalPointers), sloff(p.records[0].node.InternalPointers))
  at return
    use W_height(N, r, th)
  at return
    use W_node(N, r, th, k, th)
  at return
    use W_node(N, r, th, ik, th)
  at return
    use next_leaf(N, r, th, k, it)
  at return
    use has_key(N, r, th, ik, p.records[0].index)
  at return
    use has_below(N, r, th, k)
  at return
    use idx_range(nd(N, r, k, th), k)
  at return
    use idx_key(nd(N, r, k, th), k, p.records[0].index)
  at return
    use idx_key(nd(N, r, k, th), k - 1, p.records[0].index)
  at return
    use forall m int {tp(N, r, ky(nd(N, r, ik, th), p.records[0].index), m)} :: W_path(N, r, th, ky(nd(N, r, ik, th), p.records[0].index), ik, th, m)
  at return
    use forall z int {tp(N, r, z, th)} :: first_geq(N, r, th, k, z)
  at return
    use forall z int {tp(N, r, z, th)} :: next_is_next(N, r, th, k, it, z)
  at return
    use forall z int {tp(N, r, z, th)} :: next_in_leaf(N, r, th, k, z)
  at return
    use forall z int {tp(N, r, z, th)} :: no_next(N, r, th, k, z)
  at return
    set ik = ok ? ky(nd(N, r, ik, th), p.records[0].index) : ik
lemma mem_key(w, p int, data Bs, K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io, i int)
  props C07, C08
  noauto
  let x = nid(K, ko, kn, L, lo, ln, I, io)
  requires 0 <= i && i < kn && keysok(w, p, data, K, ko, kn)
  use keysok_def(w, p, data, K, ko, kn)
  mention x
  use isnid_def(K, ko, kn, L, lo, ln, I, io, x)
  mention ky(x, i)
  ensures ky(x, i) == rank(K[ko + i]) && keyok(w, p, data, K[ko + i])
lemma mem_ptr(K [int]pointer.ReferencedValue, ko, kn int, L [int]pointer.MemoryPointer, lo, ln int, I [int]uint64, io, i int)
  props C07, C08
  noauto
  let x = nid(K, ko, kn, L, lo, ln, I, io)
  requires 0 <= i && i < kn && ln > 0
  mention x
  use isnid_def(K, ko, kn, L, lo, ln, I, io, x)
  mention pl(x, i)
  ensures pl(x, i) == mpc(L[lo + i])

func (*TraversalIterator).Prev(p) (ok bool)
  props C08
  let t = p.tree
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  let k = p.records == nil ? rank(p.key) : ik
  requires t != nil && tenv(*t) && (tnone(disk, *t) || treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th)) && p.err == nil && real(p.key)
  requires p.records != nil ==> !tnone(disk, *t) && len(p.records) == th + 1 && onentry(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, ik, th, elems(p.records), sloff(p.records))
  requires p.records != nil ==> forall j int {p.records[j]} :: 0 <= j && j < len(p.records) ==> alive(p.records[j].node) && alive(p.records[j].node.Keys) && alive(p.records[j].node.LeafPointers) && alive(p.records[j].node.InternalPointers)
  modifies pos, iofail, ik, it, tl, *p, elems(p.records)
  ensures [io] p.err == nil ==> (iofail <==> old(iofail))
  ensures [err] ok ==> p.err == nil
  ensures [kept] p.tree == t && p.key == old(p.key)
  ensures [entry] ok ==> !tnone(disk, *t) && len(p.records) == th + 1 && p.records != nil && onentry(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, ik, th, elems(p.records), sloff(p.records))
  ensures [alive] ok ==> forall j int {p.records[j]} :: 0 <= j && j < len(p.records) ==> alive(p.records[j].node) && alive(p.records[j].node.Keys) && alive(p.records[j].node.LeafPointers) && alive(p.records[j].node.InternalPointers)
  ensures [before] ok ==> ik < k
  ensures [prev] ok ==> forall z int {tp(N, r, z, th)} :: has(N, r, th, z) && z < k ==> z <= ik
  ensures [end] !ok && p.err == nil && !tnone(disk, *t) ==> forall z int {tp(N, r, z, th)} :: has(N, r, th, z) ==> k <= z
  at entry
    set ik = p.records == nil ? rank(p.key) : ik
  at entry
    use W_height(N, r, th)
  at beforecall incr
    use W_node(N, r, th, ik, th)
  at beforecall incr
    use idx_range(nd(N, r, ik, th), ik)
  at beforecall incr
    use idx_range(nd(N, r, ik, th), ik - 1)
  at return
    use W_height(N, r, th)
  at return
    use W_node(N, r, th, k, th)
  at return
    use W_node(N, r, th, ik, th)
  at return
    use has_key(N, r, th, ik, p.records[0].index)
  at return
    use has_below(N, r, th, k)
  at return
    use idx_range(nd(N, r, k, th), k)
  at return
    use idx_key(nd(N, r, k, th), k, p.records[0].index)
  at return
    use idx_key(nd(N, r, k, th), k - 1, p.records[0].index)
  at return
    use forall m int {tp(N, r, ky(nd(N, r, ik, th), p.records[0].index), m)} :: W_path(N, r, th, ky(nd(N, r, ik, th), p.records[0].index), ik, th, m)
  at return
    use prev_leaf(N, r, th, k, it)
  at return
    use forall z int {tp(N, r, z, th)} :: last_lt(N, r, th, k, z)
  at return
    use forall z int {tp(N, r, z, th)} :: prev_is_prev(N, r, th, k, it, z)
  at return
    use forall z int {tp(N, r, z, th)} :: no_prev(N, r, th, k, z)
  at return
    set ik = ok ? ky(nd(N, r, ik, th), p.records[0].index) : ik

func (*TraversalIterator).Key(p) (v pointer.ReferencedValue)
  props C08
  let t = p.tree
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  requires t != nil && treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th)
  requires p.err == nil && !tnone(disk, *t) && len(p.records) == th + 1 && onentry(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, ik, th, elems(p.records), sloff(p.records))
  ensures [key] rank(v) == ik && real(v)
  at entry
    use W_height(N, r, th)
  at entry
    use W_node(N, r, th, ik, th)
  at entry
    use idx_range(nd(N, r, ik, th), ik)
  at entry
    use mem_head(elems(p.records[0].node.Keys), sloff(p.records[0].node.Keys), len(p.records[0].node.Keys), elems(p.records[0].node.LeafPointers), sloff(p.records[0].node.LeafPointers), len(p.records[0].node.LeafPointers), elems(p.records[0].node.InternalPointers), sloff(p.records[0].node.InternalPointers))
  at return
    use mem_key(t.Width, t.DataParser, t.Data, elems(p.records[0].node.Keys), sloff(p.records[0].node.Keys), len(p.records[0].node.Keys), elems(p.records[0].node.LeafPointers), sloff(p.records[0].node.LeafPointers), len(p.records[0].node.LeafPointers), elems(p.records[0].node.InternalPointers), sloff(p.records[0].node.InternalPointers), p.records[0].index)

func (*TraversalIterator).Pointer(p) (v pointer.MemoryPointer)
  props C08
  let t = p.tree
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  requires t != nil && treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th)
  requires p.err == nil && !tnone(disk, *t) && len(p.records) == th + 1 && onentry(H(BPTreeNode), S(pointer.ReferencedValue), S(pointer.MemoryPointer), S(uint64), t.Width, t.DataParser, t.Data, N, r, ik, th, elems(p.records), sloff(p.records))
  ensures [value] mpc(v) == val(N, r, th, ik)
  at entry
    use W_height(N, r, th)
  at entry
    use W_node(N, r, th, ik, th)
  at entry
    use idx_range(nd(N, r, ik, th), ik)
  at entry
    use mem_head(elems(p.records[0].node.Keys), sloff(p.records[0].node.Keys), len(p.records[0].node.Keys), elems(p.records[0].node.LeafPointers), sloff(p.records[0].node.LeafPointers), len(p.records[0].node.LeafPointers), elems(p.records[0].node.InternalPointers), sloff(p.records[0].node.InternalPointers))
  at return
    use mem_ptr(elems(p.records[0].node.Keys), sloff(p.records[0].node.Keys), len(p.records[0].node.Keys), elems(p.records[0].node.LeafPointers), sloff(p.records[0].node.LeafPointers), len(p.records[0].node.LeafPointers), elems(p.records[0].node.InternalPointers), sloff(p.records[0].node.InternalPointers), p.records[0].index)

func (*BPTree).Iter(t, key) (p *TraversalIterator, err error)
  props C08
  ensures err == nil && p != nil && fresh(p) && p.tree == t && p.key == key && p.err == nil && p.records == nil

func (*BPTree).Find(t, key) (v pointer.ReferencedValue, ptr pointer.MemoryPointer, err error)
  props C08
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  let k = rank(key)
  requires tenv(*t) && (tnone(disk, *t) || treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th)) && real(key)
  modifies pos, iofail, ik, it, tl
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [failed] err != nil ==> len(v.Value) == 0 && ptr.Length == 0 && ptr.Offset == 0
  ensures [found] err == nil ==> (tnone(disk, *t) || forall z int {tp(N, r, z, th)} :: has(N, r, th, z) ==> z < k) && len(v.Value) == 0 && ptr.Offset == 0 && ptr.Length == 0
    || !tnone(disk, *t) && has(N, r, th, rank(v)) && real(v) && rank(v) >= k && mpc(ptr) == val(N, r, th, rank(v)) && (forall z int {tp(N, r, z, th)} :: has(N, r, th, z) && z >= k ==> rank(v) <= z)

lemma between(a, f, z pointer.ReferencedValue)
  props C08
  noauto
  requires real(a) && real(f) && real(z) && rank(a) <= rank(f) && rank(f) <= rank(z) && z.Value == a.Value
  mention rank(a)
  mention rank(f)
  mention rank(z)
  ensures f.Value == a.Value
func (*BPTree).Contains(t, key) (ok bool, err error)
  props C08
  let r = troot(disk, *t)
  let N = nmap(disk, t.Width, t.DataParser, t.Data)
  let k = rank(key)
  requires tenv(*t) && (tnone(disk, *t) || treeok(disk, size, used, t.Width, t.DataParser, t.Data, oth, r, th)) && real(key)
  modifies pos, iofail, ik, it, tl
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [failed] err != nil ==> !ok
  ensures [yes] ok ==> !tnone(disk, *t) && (exists z pointer.ReferencedValue {rank(z)} :: real(z) && has(N, r, th, rank(z)) && rank(z) >= k && z.Value == key.Value)
  ensures [no] !ok && err == nil && !tnone(disk, *t) ==> forall z pointer.ReferencedValue {tp(N, r, rank(z), th)} :: real(z) && has(N, r, th, rank(z)) && rank(z) >= k ==> z.Value != key.Value
