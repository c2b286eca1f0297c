// Inserting into the vector tree. Vectors of up to 500 components are covered: at least three
// entries of a node then fit into a page (known finding wide-vectors is beyond that).
package btree
fn insid(K [int]pointer.ReferencedId, ko, n int, K2 [int]pointer.ReferencedId, ko2, j int, v pointer.ReferencedId) bool =
  forall i int {K2[ko2 + i]} :: 0 <= i && i <= n ==> K2[ko2 + i] == (i < j ? K[ko + i] : i == j ? v : K[ko + i - 1])
fn insv(V [int]hnsw.Point, vo, n int, V2 [int]hnsw.Point, vo2, j int, v hnsw.Point) bool =
  forall i int {V2[vo2 + i]} :: 0 <= i && i <= n ==> V2[vo2 + i] == (i < j ? V[vo + i] : i == j ? v : V[vo + i - 1])
lemma bkpos_ins(K [int]pointer.ReferencedId, ko, n int, K2 [int]pointer.ReferencedId, ko2, j int, v pointer.ReferencedId, i int)
  props C11
  induction i step
  noauto
  requires insid(K, ko, n, K2, ko2, j, v) && 0 <= j && j <= n && 0 <= i && i <= n + 1
  mention bkpos(K2, ko2, i)
  mention bkpos(K2, ko2, i - 1)
  mention bkpos(K, ko, i)
  mention bkpos(K, ko, i - 1)
  mention bkpos(K, ko, i - 2)
  mention K2[ko2 + (i - 1)]
  ensures bkpos(K2, ko2, i) == (i <= j ? bkpos(K, ko, i) : bkpos(K, ko, i - 1) + bklen(v))
lemma bkpos_max(K [int]pointer.ReferencedId, ko, n, i int)
  props C11
  induction i step
  noauto
  requires idsok(K, ko, n) && 0 <= i && i <= n
  use idsok_def(K, ko, n)
  mention bkpos(K, ko, i)
  mention bkpos(K, ko, i - 1)
  mention K[ko + (i - 1)]
  ensures bkpos(K, ko, i) <= 4 + 25 * i
lemma bkpos_min(K [int]pointer.ReferencedId, ko, a, i int)
  props C11
  induction i step
  noauto
  requires 0 <= a && a <= i
  mention bkpos(K, ko, i)
  mention bkpos(K, ko, i - 1)
  ensures bkpos(K, ko, i) - bkpos(K, ko, a) >= 3 * (i - a)
lemma vpos_max(d, b, i int)
  props C11
  induction i step
  noauto
  requires 0 <= i && 1 <= d && d <= 500
  mention vpos(d, b, i)
  mention vpos(d, b, i - 1)
  ensures vpos(d, b, i) <= b + 2000 * i && (d <= 6 ==> vpos(d, b, i) <= b + 24 * i)
lemma vpos_two(d, b, a, i int)
  props C11
  noauto
  requires 0 <= a && a + 2 <= i && d >= 1
  use vpos_mono(d, b, a, a + 1)
  use vpos_mono(d, b, a + 1, i)
  ensures vpos(d, b, i) - vpos(d, b, a) >= 8 * d
lemma bkpos_part(K [int]pointer.ReferencedId, ko, m, i int)
  props C11
  induction i step
  noauto
  requires m >= 0
  mention bkpos(K, ko + m, i)
  mention bkpos(K, ko + m, i - 1)
  mention bkpos(K, ko, m + i)
  mention bkpos(K, ko, m + i - 1)
  ensures i >= 0 ==> bkpos(K, ko + m, i) == bkpos(K, ko, m + i) - bkpos(K, ko, m) + 4
lemma vpos_part(d, b, c, m, i int)
  props C11
  induction i step
  noauto
  requires m >= 0
  mention vpos(d, b, i)
  mention vpos(d, b, i - 1)
  mention vpos(d, c, m + i)
  mention vpos(d, c, m + i - 1)
  ensures i >= 0 ==> vpos(d, b, i) == vpos(d, c, m + i) - vpos(d, c, m) + b
// the size of a node with kn ids at K[ko..] and cn children at I[io..]
fn bsz(K [int]pointer.ReferencedId, ko, kn int, I [int]uint64, io, cn, d int) int = vpos(d, ipos(I, io, bkpos(K, ko, kn), cn) + uvl(d), kn)
// the halves of a node that became too big by one entry fit
lemma bhalf_leaf(K [int]pointer.ReferencedId, ko int, I [int]uint64, io, io2, d, n int)
  props C11
  noauto
  let m = n / 2
  let kb = bkpos(K, ko, n)
  let km = bkpos(K, ko, m)
  let kr = bkpos(K, ko + m, n - m)
  let u = uvl(d)
  requires idsok(K, ko, n) && n >= 0 && 1 <= d && d <= 500 && bsz(K, ko, n, I, io, 0, d) > 4096 && bsz(K, ko, n, I, io, 0, d) <= 4121 + 4 * d
  mention ipos(I, io, kb, 0)
  mention ipos(I, io, km, 0)
  mention ipos(I, io2, kr, 0)
  use bkpos_max(K, ko, n, n)
  use vpos_max(d, kb + u, n)
  assert u <= 2 && u >= 1
  assert n >= 3 && (d <= 6 ==> n >= 83)
  use bkpos_min(K, ko, m, n)
  use bkpos_min(K, ko, 0, m)
  mention bkpos(K, ko, 0)
  use bkpos_part(K, ko, m, n - m)
  use vpos_two(d, kb + u, m, n)
  use vpos_base(d, kb + u, km + u, m)
  use vpos_part(d, kr + u, kb + u, m, n - m)
  mention vpos(d, kb + u, 0)
  use vpos_two(d, kb + u, 0, m)
  use vpos_max(d, kr + u, n - m)
  use bkpos_max(K, ko, n, m)
  use bkpos_max(K, ko, n, 1)
  use bkpos_min(K, ko, 1, n)
  assert vpos(d, km + u, m) - (km + u) == vpos(d, kb + u, m) - (kb + u)
  assert n == 3 ==> kr <= 4 + 75
  ensures [left] bsz(K, ko, m, I, io, 0, d) <= 4096
  ensures [right] bsz(K, ko + m, n - m, I, io2, 0, d) <= 4096
  ensures [halves] 0 < m && m < n && n >= 3
lemma bhalf_inner(K [int]pointer.ReferencedId, ko int, I [int]uint64, io, d, n int)
  props C11
  noauto
  let m = n / 2
  let kb = bkpos(K, ko, n)
  let km = bkpos(K, ko, m)
  let kr = bkpos(K, ko + m + 1, n - m - 1)
  let ob = ipos(I, io, kb, n + 1)
  let om = ipos(I, io, km, m + 1)
  let or = ipos(I, io + m + 1, kr, n - m)
  let u = uvl(d)
  requires idsok(K, ko, n) && n >= 0 && 1 <= d && d <= 500 && bsz(K, ko, n, I, io, n + 1, d) > 4096 && bsz(K, ko, n, I, io, n + 1, d) <= 4131 + 4 * d
  use bkpos_max(K, ko, n, n)
  use ipos_max(I, io, kb, n + 1)
  use vpos_max(d, ob + u, n)
  assert u <= 2 && u >= 1
  assert n >= 3 && (d <= 6 ==> n >= 69)
  use bkpos_min(K, ko, m, n)
  use bkpos_min(K, ko, 0, m + 1)
  mention bkpos(K, ko, 0)
  use bkpos_part(K, ko, m + 1, n - m - 1)
  use ipos_min(I, io, kb, m + 1, n + 1)
  use ipos_base(I, io, kb, km, m + 1)
  use ipos_part(I, io, kr, kb, m + 1, n - m)
  use ipos_min(I, io, kb, 0, m + 1)
  mention ipos(I, io, kb, 0)
  use vpos_two(d, ob + u, m, n)
  use vpos_base(d, ob + u, om + u, m)
  use vpos_part(d, or + u, ob + u, m + 1, n - m - 1)
  mention vpos(d, ob + u, 0)
  use vpos_two(d, ob + u, 0, m + 1)
  ensures [left] bsz(K, ko, m, I, io, m + 1, d) <= 4096
  ensures [right] bsz(K, ko + m + 1, n - m - 1, I, io + m + 1, n - m, d) <= 4096
  ensures [halves] 0 < m && m + 1 < n && n >= 3
// ---- a written node ----
// a[o..] has the components of the vectors
hidden fn bvec(a [int]int, o, d, b int, V [int]hnsw.Point, vo int, F [int][int]float32, n int) bool =
  forall i, j int {vcell(d, b, i, j)} :: 0 <= i && i < n && 0 <= j && j < d ==> le4(a, o + vcell(d, b, i, j)) == F[arr(V[vo + i])][sloff(V[vo + i]) + j]
lemma bvec_def(a [int]int, o, d, b int, V [int]hnsw.Point, vo int, F [int][int]float32, n int)
  props C11
  noauto
  ensures bvec(a, o, d, b, V, vo, F, n) <==> (forall i, j int {vcell(d, b, i, j)} :: 0 <= i && i < n && 0 <= j && j < d ==> le4(a, o + vcell(d, b, i, j)) == F[arr(V[vo + i])][sloff(V[vo + i]) + j])
lemma benck_move(a [int]int, o int, b [int]int, q, N int, K [int]pointer.ReferencedId, ko, n, i int)
  props C11
  noauto
  let k = K[ko + i]
  let z = bkpos(K, ko, i)
  requires copied(a, o, b, q, N) && benck(a, o, K, ko, n) && 0 <= i && i < n && bkpos(K, ko, n) <= N
  use bkpos_mono(K, ko, i, n)
  mention z
  assert z >= 4 && z + bklen(k) <= N
  use uvat_move(a, o + z, b, q + z, k.DataPointer.Offset)
  use uvat_move(a, o + z + uvl(k.DataPointer.Offset), b, q + z + uvl(k.DataPointer.Offset), k.DataPointer.Length)
  use uvat_move(a, o + z + uvl(k.DataPointer.Offset) + uvl(k.DataPointer.Length), b, q + z + uvl(k.DataPointer.Offset) + uvl(k.DataPointer.Length), k.Value)
  ensures [off] uvat(b, q + z, k.DataPointer.Offset)
  ensures [len] uvat(b, q + z + uvl(k.DataPointer.Offset), k.DataPointer.Length)
  ensures [val] uvat(b, q + z + uvl(k.DataPointer.Offset) + uvl(k.DataPointer.Length), k.Value)
lemma le4_move(a [int]int, o int, b [int]int, q, N, z int)
  props C11
  noauto
  requires copied(a, o, b, q, N) && 0 <= z && z + 4 <= N
  mention b[q + z]
  mention b[q + (z + 1)]
  mention b[q + (z + 2)]
  mention b[q + (z + 3)]
  ensures le4(b, q + z) == le4(a, o + z)
lemma vcell_in(d, b, n, i, j int)
  props C11
  noauto
  requires 0 <= i && i < n && 0 <= j && j < d
  use vpos_mono(d, b, i, n)
  use vpos_lo(d, b, i)
  use vcell_def(d, b, i, j)
  ensures b <= vcell(d, b, i, j) && vcell(d, b, i, j) + 4 <= vpos(d, b, n)
lemma benc_move(a [int]int, o int, b [int]int, q int, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64, V [int]hnsw.Point, F [int][int]float32)
  props C11
  noauto
  let kb = bkpos(K, sloff(n.Ids), len(n.Ids))
  let OB = bopos(n, K, I)
  let VB = bvpos(n, K, I)
  let d = n.VectorDim
  let N = bnpos(n, K, I)
  requires copied(a, o, b, q, N) && benc(a, o, n, K, I) && bshape(n) && bvec(a, o, d, VB, V, sloff(n.Vectors), F, len(n.Vectors))
  use bkpos_lo(K, sloff(n.Ids), len(n.Ids))
  use ipos_lo(I, sloff(n.Offsets), kb, len(n.Offsets))
  use vpos_lo(d, VB, len(n.Vectors))
  assert 4 <= kb && kb <= OB && OB + uvl(d) == VB && VB <= N
  use bvec_def(a, o, d, VB, V, sloff(n.Vectors), F, len(n.Vectors))
  use bvec_def(b, q, d, VB, V, sloff(n.Vectors), F, len(n.Vectors))
  use le4_move(a, o, b, q, N, 0)
  assert le4(b, q) == le4(a, o)
  use forall i int {bkpos(K, sloff(n.Ids), i)} :: benck_move(a, o, b, q, N, K, sloff(n.Ids), len(n.Ids), i)
  use forall i int {ipos(I, sloff(n.Offsets), kb, i)} :: enci_move(a, o, b, q, N, I, sloff(n.Offsets), kb, len(n.Offsets), i)
  use uvat_move(a, o + OB, b, q + OB, d)
  use forall i, j int {vcell(d, VB, i, j)} :: vcell_in(d, VB, len(n.Vectors), i, j)
  use forall i, j int {vcell(d, VB, i, j)} :: le4_move(a, o, b, q, N, vcell(d, VB, i, j))
  ensures [ids] benck(b, q, K, sloff(n.Ids), len(n.Ids))
  ensures [children] enci(b, q, I, sloff(n.Offsets), kb, len(n.Offsets))
  ensures [dim] uvat(b, q + OB, d)
  ensures [all] benc(b, q, n, K, I)
  ensures [vectors] bvec(b, q, d, VB, V, sloff(n.Vectors), F, len(n.Vectors))
lemma benc_ok(n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64, b int)
  props C11
  noauto
  requires idsok(K, sloff(n.Ids), len(n.Ids)) && chsok(I, sloff(n.Offsets), len(n.Offsets))
  use idsok_def(K, sloff(n.Ids), len(n.Ids))
  use chsok_def(I, sloff(n.Offsets), len(n.Offsets))
  ensures [ids] bkok(K, sloff(n.Ids), len(n.Ids))
  ensures [children] iok(I, sloff(n.Offsets), b, len(n.Offsets))
lemma benc_id(d int, B Bs, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64, i int)
  props C11
  noauto
  let ko = sloff(n.Ids)
  let A = bsarr(B)
  requires bshape(n) && n.VectorDim == d && benc(A, 0, n, K, I) && bnpos(n, K, I) <= 4096 && bkpos(K, ko, len(n.Ids)) <= 4096
  requires idsok(K, ko, len(n.Ids)) && chsok(I, sloff(n.Offsets), len(n.Offsets))
  requires 0 <= i && i < len(n.Ids)
  use benc_ok(n, K, I, bkpos(K, ko, len(n.Ids)))
  use bkpos_mono(K, ko, i, len(n.Ids))
  use dbk_enc(A, 0, 4096, K, ko, len(n.Ids), i)
  use dbk_step(A, 0, 4096, K, ko, len(n.Ids), i)
  mention dbid(B, i)
  mention K[ko + i]
  ensures dbid(B, i) == K[ko + i]
lemma benc_child(d int, B Bs, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64, i int)
  props C11
  noauto
  let ko = sloff(n.Ids)
  let kb = bkpos(K, ko, len(n.Ids))
  let A = bsarr(B)
  requires bshape(n) && n.VectorDim == d && benc(A, 0, n, K, I) && bnpos(n, K, I) <= 4096
  requires idsok(K, ko, len(n.Ids)) && chsok(I, sloff(n.Offsets), len(n.Offsets))
  requires 0 <= i && i < len(n.Offsets)
  use benc_ok(n, K, I, kb)
  use bnode_head(A, 0, 4096, n, K, I)
  use vpos_lo(d, bvpos(n, K, I), len(n.Vectors))
  use di_un(A, 0, 4096, kb, I, sloff(n.Offsets), len(n.Offsets), i)
  ensures dbch(B, i) == I[sloff(n.Offsets) + i]
lemma benc_vec(d int, B Bs, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64, V [int]hnsw.Point, F [int][int]float32, i int)
  props C11
  noauto
  let VB = bvpos(n, K, I)
  let A = bsarr(B)
  requires bshape(n) && n.VectorDim == d && dvb(A, 0, 4096) == VB && bvec(A, 0, d, VB, V, sloff(n.Vectors), F, len(n.Vectors)) && 0 <= i && i < len(n.Vectors)
  use bvec_def(A, 0, d, VB, V, sloff(n.Vectors), F, len(n.Vectors))
  let x = pvec(F, V, sloff(n.Vectors) + i, d)
  let y = dvec(d, B, i)
  mention x
  mention y
  use vsame_def(x, y)
  assert forall j int {vx(y, j)} :: 0 <= j && j < d ==> vx(y, j) == le4(A, vcell(d, VB, i, j))
  assert forall j int {vx(x, j)} :: 0 <= j && j < d ==> vx(x, j) == vx(y, j)
  assert vsame(x, y)
  ensures x == y
lemma bpage_node(d int, B Bs, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64, V [int]hnsw.Point, F [int][int]float32)
  props C11
  noauto
  let ko = sloff(n.Ids)
  let kb = bkpos(K, ko, len(n.Ids))
  let A = bsarr(B)
  let x = bx(n, K, V, F, I, d)
  let y = bdn(d, B)
  requires bshape(n) && n.VectorDim == d && benc(A, 0, n, K, I) && bnpos(n, K, I) <= 4096 && bvec(A, 0, d, bvpos(n, K, I), V, sloff(n.Vectors), F, len(n.Vectors))
  requires idsok(K, ko, len(n.Ids)) && chsok(I, sloff(n.Offsets), len(n.Offsets))
  use benc_ok(n, K, I, kb)
  use bnode_head(A, 0, 4096, n, K, I)
  use bnode_decodable(A, 0, 4096, n, K, I)
  use bgood_def(d, B)
  use bkpos_lo(K, ko, len(n.Ids))
  use ipos_lo(I, sloff(n.Offsets), kb, len(n.Offsets))
  use vpos_lo(d, bvpos(n, K, I), len(n.Vectors))
  use isbdn_def(d, B, y)
  use isbnid_def(K, ko, len(n.Ids), V, sloff(n.Vectors), F, d, I, sloff(n.Offsets), len(n.Offsets), x)
  mention x
  mention y
  use same_def(x, y)
  use forall i int {dbid(B, i)} :: benc_id(d, B, n, K, I, i)
  use forall i int {V[sloff(n.Vectors) + i]} :: benc_vec(d, B, n, K, I, V, F, i)
  use forall i int {ch(y, i)} :: benc_child(d, B, n, K, I, i)
  ensures [good] bgood(d, B)
  assert len(n.Ids) > 0 && bgood(d, B)
  assert (leaf(x) <==> leaf(y)) && nk(x) == nk(y)
  assert forall i int {ky(x, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == ky(y, i)
  assert leaf(x) ==> forall i int {pl(x, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == pl(y, i)
  assert !leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == ch(y, i)
  ensures [keys] (leaf(x) <==> leaf(y)) && nk(x) == nk(y) && forall i int {ky(x, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == ky(y, i)
  ensures [leaves] leaf(x) ==> forall i int {pl(x, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == pl(y, i)
  ensures [children] !leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == ch(y, i)
  assert same(x, y)
  ensures [same] x == y
lemma bpage_holds(d int, D [int]int, P int, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64, V [int]hnsw.Point, F [int][int]float32)
  props C11
  noauto
  let B = page(D, P)
  let A = bsarr(B)
  requires bshape(n) && n.VectorDim == d && benc(D, P, n, K, I) && bnpos(n, K, I) <= 4096 && bvec(D, P, d, bvpos(n, K, I), V, sloff(n.Vectors), F, len(n.Vectors))
  requires idsok(K, sloff(n.Ids), len(n.Ids)) && chsok(I, sloff(n.Offsets), len(n.Offsets))
  mention B[0]
  assert forall i int {A[0 + i]} :: 0 <= i && i < 4096 ==> A[0 + i] == D[P + i]
  use benc_move(D, P, A, 0, n, K, I, V, F)
  use bpage_node(d, B, n, K, I, V, F)
  ensures [good] bgood(d, B)
  ensures [node] bdn(d, B) == bx(n, K, V, F, I, d)
// ---- the store while the path is being written back ----
// V gives the nodes of the store except on pages P and Q
hidden fn brep(V, D [int]int, d int, P, Q int) bool = forall q int {V[q]} {bmap(D, d)[q]} :: pg(q) && q != P && q != Q ==> V[q] == bmap(D, d)[q]
lemma brep_def(V, D [int]int, d int, P, Q int)
  props C11
  noauto
  ensures brep(V, D, d, P, Q) <==> (forall q int {V[q]} {bmap(D, d)[q]} :: pg(q) && q != P && q != Q ==> V[q] == bmap(D, d)[q])
// the pages V reaches are ours, and complete except for P and Q
hidden fn bvpages(V [int]int, r, h int, D [int]int, n int, U [int]bool, d int, X [int]bool, P, Q int) bool = forall k, l int {tp(V, r, k, l)} :: lev(l, h) ==>
  tp(V, r, k, l) + 4096 <= n && U[tp(V, r, k, l)] && !X[tp(V, r, k, l)] && (tp(V, r, k, l) != P && tp(V, r, k, l) != Q ==> bgood(d, page(D, tp(V, r, k, l))))
lemma bvpages_def(V [int]int, r, h int, D [int]int, n int, U [int]bool, d int, X [int]bool, P, Q int)
  props C11
  noauto
  ensures bvpages(V, r, h, D, n, U, d, X, P, Q) <==> (forall k, l int {tp(V, r, k, l)} :: lev(l, h) ==>
  tp(V, r, k, l) + 4096 <= n && U[tp(V, r, k, l)] && !X[tp(V, r, k, l)] && (tp(V, r, k, l) != P && tp(V, r, k, l) != Q ==> bgood(d, page(D, tp(V, r, k, l)))))
lemma bvpages_at(V [int]int, r, h int, D [int]int, n int, U [int]bool, d int, X [int]bool, P, Q, k, l int)
  props C11
  noauto
  requires bvpages(V, r, h, D, n, U, d, X, P, Q) && lev(l, h)
  use bvpages_def(V, r, h, D, n, U, d, X, P, Q)
  mention tp(V, r, k, l)
  ensures tp(V, r, k, l) + 4096 <= n && U[tp(V, r, k, l)] && !X[tp(V, r, k, l)] && (tp(V, r, k, l) != P && tp(V, r, k, l) != Q ==> bgood(d, page(D, tp(V, r, k, l))))
// every node V reaches is on its page
hidden fn bvdone(V [int]int, r, h int, D [int]int, n int, U [int]bool, d int, X [int]bool) bool = forall k, l int {tp(V, r, k, l)} :: lev(l, h) ==>
  V[tp(V, r, k, l)] == bmap(D, d)[tp(V, r, k, l)] && bpageok(D, n, U, d, X, tp(V, r, k, l))
lemma bvdone_def(V [int]int, r, h int, D [int]int, n int, U [int]bool, d int, X [int]bool)
  props C11
  noauto
  ensures bvdone(V, r, h, D, n, U, d, X) <==> (forall k, l int {tp(V, r, k, l)} :: lev(l, h) ==>
  V[tp(V, r, k, l)] == bmap(D, d)[tp(V, r, k, l)] && bpageok(D, n, U, d, X, tp(V, r, k, l)))
lemma bvdone_agree(V [int]int, r, h int, D [int]int, n int, U [int]bool, d int, X [int]bool)
  props C11
  noauto
  let N = bmap(D, d)
  requires W(V, r, h) && bvdone(V, r, h, D, n, U, d, X)
  use bvdone_def(V, r, h, D, n, U, d, X)
  use agree_def(V, N, r, h)
  use forall k, l int {tp(V, r, k, l)} :: same_self(nd(V, r, k, l))
  ensures agree(V, N, r, h)
lemma bvdone_tree(V [int]int, r, h int, D [int]int, n int, U [int]bool, d int, X [int]bool)
  props C11
  noauto
  let N = bmap(D, d)
  requires W(V, r, h) && bvdone(V, r, h, D, n, U, d, X) && n <= 4611686018427387904
  use bvdone_agree(V, r, h, D, n, U, d, X)
  use agree_W(V, N, r, h)
  use bvdone_def(V, r, h, D, n, U, d, X)
  use bpages_def(D, n, U, d, X, r, h)
  use forall k, l int {tp(N, r, k, l)} :: agree_at(V, N, r, h, k, l)
  ensures btreeok(D, n, U, d, X, r, h)
// the pages that matter have not changed
lemma bvdone_move(V [int]int, r, h int, D, E [int]int, n int, U [int]bool, d int, X [int]bool)
  props C11
  noauto
  requires bvdone(V, r, h, D, n, U, d, X) && W(V, r, h)
  requires forall i int {E[i]} :: i >= 4096 && !X[i - i % 4096] ==> E[i] == D[i]
  use bvdone_def(V, r, h, D, n, U, d, X)
  use bvdone_def(V, r, h, E, n, U, d, X)
  use forall k, l int {tp(V, r, k, l)} :: W_node(V, r, h, k, l)
  use forall q int {bmap(E, d)[q]} :: page_same(D, E, q)
  ensures bvdone(V, r, h, E, n, U, d, X)
// the last page of the path has been written
lemma bvdone_write(V [int]int, r, h int, D, E [int]int, n int, U [int]bool, d int, X [int]bool, P int)
  props C11
  noauto
  requires W(V, r, h) && brep(V, D, d, P, P) && bvpages(V, r, h, D, n, U, d, X, P, P) && pg(P)
  requires forall i int {E[i]} :: i >= 4096 && i - i % 4096 != P ==> E[i] == D[i]
  requires bgood(d, page(E, P)) && bdn(d, page(E, P)) == V[P]
  use bvdone_def(V, r, h, E, n, U, d, X)
  use bvpages_def(V, r, h, D, n, U, d, X, P, P)
  use brep_def(V, D, d, P, P)
  use forall k, l int {tp(V, r, k, l)} :: W_node(V, r, h, k, l)
  use forall q int {bmap(E, d)[q]} :: page_same(D, E, q)
  ensures bvdone(V, r, h, E, n, U, d, X)
// a tree of one leaf
lemma bleaf_tree(z int, D [int]int, n int, U [int]bool, d int, X [int]bool)
  props C11
  noauto
  let x = bdn(d, page(D, z))
  let N = bmap(D, d)
  requires pg(z) && bgood(d, page(D, z)) && leaf(x) && nk(x) == 1 && z + 4096 <= n && U[z] && !X[z] && n <= 4611686018427387904
  use srt_def(x)
  use W_def(N, z, 0)
  use W1_def(N, z, 0)
  use W2_def(N, z, 0)
  use W3_def(N, z, 0)
  use W4_def(N, z, 0)
  use W5_def(N, z, 0)
  use bpages_def(D, n, U, d, X, z, 0)
  mention N[z]
  use forall k, l int {tp(N, z, k, l)} :: at_top(N, z, k, l)
  ensures [w] W(N, z, 0)
  ensures [tree] btreeok(D, n, U, d, X, z, 0)
lemma bleaf_has(z int, D [int]int, d int, k int)
  props C11
  noauto
  let x = bdn(d, page(D, z))
  let N = bmap(D, d)
  requires leaf(x) && nk(x) == 1
  mention N[z]
  use at_top(N, z, k, 0)
  use srt_def(x)
  use idx_range(x, k)
  use idx_key(x, k, 0)
  ensures has(N, z, 0, k) <==> k == ky(x, 0)
  ensures has(N, z, 0, k) ==> val(N, z, 0, k) == pl(x, 0)
lemma bins_start(D [int]int, n int, U [int]bool, d int, X [int]bool, r, h, s, v, x int)
  props C11
  noauto
  let N = bmap(D, d)
  let P = tp(N, r, s, h)
  let M = N[P <- x]
  requires btreeok(D, n, U, d, X, r, h) && !has(N, r, h, s) && grown(N[P], x, idx(N[P], s), s, v)
  use ins_W(N, r, h, s, v, x)
  use ents_ins(N, r, h, s, v, x)
  use brep_def(M, D, d, P, P)
  use bvpages_def(M, r, h, D, n, U, d, X, P, P)
  use bpages_def(D, n, U, d, X, r, h)
  use forall k, l int {tp(M, r, k, l)} :: ins_at(N, r, h, s, x, k, l)
  ensures [w] W(M, r, h)
  ensures [rep] brep(M, D, d, P, P)
  ensures [pages] bvpages(M, r, h, D, n, U, d, X, P, P)
  ensures [ents] ents(M, r, h, N, r, h, s, v)
// a node on the path (on page P, its parent on page Q) is split, its right half on the new page y
lemma bv_split(V [int]int, r, h, a, n, m, y, l, y2, q2 int, D, E [int]int, sz, sz2 int, U, U2 [int]bool, d int, X [int]bool, P, Q int)
  props C11
  noauto
  let M = splitn(V, r, a, n, y, l, y2, q2)
  requires splitok(V, r, h, a, n, m, y, l, y2, q2) && P == tp(V, r, a, n) && Q == tp(V, r, a, n - 1)
  requires brep(V, D, d, P, Q) && bvpages(V, r, h, D, sz, U, d, X, P, Q)
  requires forall i int {E[i]} :: i >= 4096 && i - i % 4096 != P && i - i % 4096 != y && i - i % 4096 != Q ==> E[i] == D[i]
  requires bgood(d, page(E, P)) && bdn(d, page(E, P)) == l
  requires bgood(d, page(E, y)) && bdn(d, page(E, y)) == y2
  requires sz <= sz2 && y + 4096 <= sz2 && U2[y] && !X[y] && (forall q int {U2[q]} :: U[q] ==> U2[q])
  use W_node(V, r, h, a, n)
  use W_node(V, r, h, a, n - 1)
  use W_level(V, r, h, a, n, a, n - 1)
  use unreached_def(V, r, h, y)
  mention tp(V, r, a, n)
  mention tp(V, r, a, n - 1)
  use brep_def(V, D, d, P, Q)
  use brep_def(M, E, d, Q, Q)
  use bvpages_def(V, r, h, D, sz, U, d, X, P, Q)
  use bvpages_def(M, r, h, E, sz2, U2, d, X, Q, Q)
  use forall q int {bmap(E, d)[q]} :: page_same(D, E, q)
  use forall k, j int {tp(M, r, k, j)} :: split_all(V, r, h, a, n, m, y, l, y2, q2, k, j)
  use forall k, j int {tp(M, r, k, j)} :: page_same(D, E, tp(M, r, k, j))
  use forall k, j int {tp(V, r, k, j)} :: W_node(V, r, h, k, j)
  ensures [rep] brep(M, E, d, Q, Q)
  ensures [pages] bvpages(M, r, h, E, sz2, U2, d, X, Q, Q)
// what is loosened at Q
lemma brep_more(V, D [int]int, r, h int, sz int, U [int]bool, d int, X [int]bool, P, Q int)
  props C11
  noauto
  requires brep(V, D, d, P, P) && bvpages(V, r, h, D, sz, U, d, X, P, P)
  use brep_def(V, D, d, P, P)
  use brep_def(V, D, d, P, Q)
  use bvpages_def(V, r, h, D, sz, U, d, X, P, P)
  use bvpages_def(V, r, h, D, sz, U, d, X, P, Q)
  ensures brep(V, D, d, P, Q)
  ensures bvpages(V, r, h, D, sz, U, d, X, P, Q)
// a page not in use is not reached
lemma bv_unreached(V, D [int]int, r, h int, sz int, U [int]bool, d int, X [int]bool, P, Q, y int)
  props C11
  noauto
  requires bvpages(V, r, h, D, sz, U, d, X, P, Q) && !U[y]
  use bvpages_def(V, r, h, D, sz, U, d, X, P, Q)
  use unreached_def(V, r, h, y)
  ensures unreached(V, r, h, y)
// a new root above
lemma bv_push(V, D [int]int, r, h, z, x int, sz, sz2 int, U, U2 [int]bool, d int, X [int]bool, y int)
  props C11
  noauto
  let M = V[z <- x]
  requires W(V, r, h) && unreached(V, r, h, z) && unreached(V, r, h, y) && y != z && stub(x, r) && pg(z) && nk(V[r]) >= 1
  requires brep(V, D, d, r, r) && bvpages(V, r, h, D, sz, U, d, X, r, r)
  requires sz <= sz2 && z + 4096 <= sz2 && U2[z] && !X[z] && (forall q int {U2[q]} :: U[q] ==> U2[q])
  use push_W(V, r, h, z, x)
  use W_height(V, r, h)
  use unreached_def(V, r, h, z)
  use unreached_def(V, r, h, y)
  use unreached_def(M, z, h + 1, y)
  use brep_def(V, D, d, r, r)
  use brep_def(M, D, d, r, z)
  use bvpages_def(V, r, h, D, sz, U, d, X, r, r)
  use bvpages_def(M, z, h + 1, D, sz2, U2, d, X, r, z)
  use forall k, l int {tp(M, z, k, l)} :: at_top(M, z, k, l)
  use forall k, l int {tp(M, z, k, l)} :: push_at(V, r, h, z, x, k, l)
  use forall k, l int {tp(M, z, k, l)} :: at_top(V, r, k, l - 1)
  ensures [w] W(M, z, h + 1)
  ensures [rep] brep(M, D, d, r, z)
  ensures [pages] bvpages(M, z, h + 1, D, sz2, U2, d, X, r, z)
  ensures [new] unreached(M, z, h + 1, y)
// ---- nodes in memory ----
lemma bmem_grown(K, K2 [int]pointer.ReferencedId, ko, ko2, n int, V, V2 [int]hnsw.Point, vo, vo2 int, F [int][int]float32, d int, I, I2 [int]uint64, io, io2, j int, v pointer.ReferencedId, m hnsw.Point)
  props C11
  noauto
  let x = bnid(K, ko, n, V, vo, F, d, I, io, 0)
  let y = bnid(K2, ko2, n + 1, V2, vo2, F, d, I2, io2, 0)
  requires n >= 1 && 0 <= j && j <= n && insid(K, ko, n, K2, ko2, j, v) && insv(V, vo, n, V2, vo2, j, m)
  mention x
  mention y
  use isbnid_def(K, ko, n, V, vo, F, d, I, io, 0, x)
  use isbnid_def(K2, ko2, n + 1, V2, vo2, F, d, I2, io2, 0, y)
  ensures grown(x, y, j, v.Value, ent(v.DataPointer.Offset, v.DataPointer.Length, vec(F[arr(m)], sloff(m), d)))
lemma ids_grown(K, K2 [int]pointer.ReferencedId, ko, ko2, n, j int, v pointer.ReferencedId)
  props C11
  noauto
  requires n >= 0 && 0 <= j && j <= n && insid(K, ko, n, K2, ko2, j, v) && idsok(K, ko, n) && idok(v)
  use idsok_def(K, ko, n)
  use idsok_def(K2, ko2, n + 1)
  assert forall i int {K2[ko2 + i]} :: 0 <= i && i <= n ==> idok(K2[ko2 + i])
  use bkpos_ins(K, ko, n, K2, ko2, j, v, n + 1)
  ensures [ids] idsok(K2, ko2, n + 1)
  ensures [size] bkpos(K2, ko2, n + 1) <= bkpos(K, ko, n) + 25
lemma vecs_grown(V, V2 [int]hnsw.Point, vo, vo2, n, j int, v hnsw.Point, d, A int)
  props C11
  noauto
  requires n >= 0 && 0 <= j && j <= n && insv(V, vo, n, V2, vo2, j, v) && vecsok(V, vo, n, d, A) && len(v) == d && arr(v) < A
  use vecsok_def(V, vo, n, d, A)
  use vecsok_def(V2, vo2, n + 1, d, A)
  assert forall i int {V2[vo2 + i]} :: 0 <= i && i <= n ==> len(V2[vo2 + i]) == d && arr(V2[vo2 + i]) < A
  ensures vecsok(V2, vo2, n + 1, d, A)
lemma bsz_leaf(K, K2 [int]pointer.ReferencedId, ko, ko2, n int, I, I2 [int]uint64, io, io2, d int)
  props C11
  noauto
  let b = ipos(I, io, bkpos(K, ko, n), 0) + uvl(d)
  let c = ipos(I2, io2, bkpos(K2, ko2, n + 1), 0) + uvl(d)
  requires n >= 0 && d >= 1 && bkpos(K2, ko2, n + 1) <= bkpos(K, ko, n) + 25
  mention b
  mention c
  use vpos_base(d, b, c, n)
  mention vpos(d, c, n + 1)
  ensures bsz(K2, ko2, n + 1, I2, io2, 0, d) <= bsz(K, ko, n, I, io, 0, d) + 25 + 4 * d
lemma bsz_inner(K, K2 [int]pointer.ReferencedId, ko, ko2, n int, I, I2 [int]uint64, io, io2, d int)
  props C11
  noauto
  let kb = bkpos(K, ko, n)
  let kc = bkpos(K2, ko2, n + 1)
  let b = ipos(I, io, kb, n + 1) + uvl(d)
  let c = ipos(I2, io2, kc, n + 2) + uvl(d)
  requires n >= 0 && d >= 1 && kc <= kb + 25 && ipos(I2, io2, kc, n + 2) - kc <= ipos(I, io, kb, n + 1) - kb + 10
  mention b
  mention c
  use vpos_base(d, b, c, n)
  mention vpos(d, c, n + 1)
  ensures bsz(K2, ko2, n + 1, I2, io2, n + 2, d) <= bsz(K, ko, n, I, io, n + 1, d) + 35 + 4 * d
lemma bmem_halves(K [int]pointer.ReferencedId, ko, n int, V [int]hnsw.Point, vo int, F [int][int]float32, d int, I, I2 [int]uint64, io, io2, m int)
  props C11
  noauto
  let x = bnid(K, ko, n, V, vo, F, d, I, io, 0)
  let l = bnid(K, ko, m, V, vo, F, d, I, io, 0)
  let y = bnid(K, ko + m, n - m, V, vo + m, F, d, I2, io2, 0)
  requires 0 < m && m < n
  mention x
  mention l
  mention y
  use isbnid_def(K, ko, n, V, vo, F, d, I, io, 0, x)
  use isbnid_def(K, ko, m, V, vo, F, d, I, io, 0, l)
  use isbnid_def(K, ko + m, n - m, V, vo + m, F, d, I2, io2, 0, y)
  ensures [left] lefthalf(x, l, m)
  ensures [right] righthalf(x, y, m)
lemma bmem_halvesi(K [int]pointer.ReferencedId, ko, n int, V [int]hnsw.Point, vo int, F [int][int]float32, d int, I [int]uint64, io, m int)
  props C11
  noauto
  let x = bnid(K, ko, n, V, vo, F, d, I, io, n + 1)
  let l = bnid(K, ko, m, V, vo, F, d, I, io, m + 1)
  let y = bnid(K, ko + m + 1, n - m - 1, V, vo + m + 1, F, d, I, io + m + 1, n - m)
  requires 0 < m && m + 1 < n
  mention x
  mention l
  mention y
  use isbnid_def(K, ko, n, V, vo, F, d, I, io, n + 1, x)
  use isbnid_def(K, ko, m, V, vo, F, d, I, io, m + 1, l)
  use isbnid_def(K, ko + m + 1, n - m - 1, V, vo + m + 1, F, d, I, io + m + 1, n - m, y)
  ensures [left] lefthalf(x, l, m)
  ensures [right] righthalf(x, y, m)
lemma bmem_parent(K, K2 [int]pointer.ReferencedId, ko, ko2, n int, V, V2 [int]hnsw.Point, vo, vo2 int, F [int][int]float32, d int, I, I2 [int]uint64, io, io2, c int, v pointer.ReferencedId, y int)
  props C11
  noauto
  let q = bnid(K, ko, n, V, vo, F, d, I, io, n + 1)
  let q2 = bnid(K2, ko2, n + 1, V2, vo2, F, d, I2, io2, n + 2)
  requires n >= 0 && 0 <= c && c <= n && insid(K, ko, n, K2, ko2, c, v) && insi(I, io, n + 1, I2, io2, c + 1, y)
  mention q
  mention q2
  use isbnid_def(K, ko, n, V, vo, F, d, I, io, n + 1, q)
  use isbnid_def(K2, ko2, n + 1, V2, vo2, F, d, I2, io2, n + 2, q2)
  ensures parent(q, q2, c, v.Value, y)
lemma ids_part(K [int]pointer.ReferencedId, ko, n, m, c int)
  props C11
  noauto
  requires idsok(K, ko, n) && 0 <= m && 0 <= c && m + c <= n
  use idsok_def(K, ko, n)
  use idsok_def(K, ko + m, c)
  ensures idsok(K, ko + m, c)
lemma vecs_part(V [int]hnsw.Point, vo, n, m, c, d, A int)
  props C11
  noauto
  requires vecsok(V, vo, n, d, A) && 0 <= m && 0 <= c && m + c <= n
  use vecsok_def(V, vo, n, d, A)
  use vecsok_def(V, vo + m, c, d, A)
  ensures vecsok(V, vo + m, c, d, A)
// ---- writing a node ----
func (*BTreeNode).WriteTo(n, w) (m int, err error)
  props C02, C11, C19
  let K = elems(n.Ids)
  let I = elems(n.Offsets)
  requires w != nil && bshape(*n) && vecok(*n) && bnpos(*n, elems(n.Ids), elems(n.Offsets)) < 1099511627776
  modifies disk, size, pos, iofail
  ensures [bytes] err == nil ==> benc(disk, old(pos), *n, K, I)
  ensures [vectors] err == nil ==> bvec(disk, old(pos), n.VectorDim, bvpos(*n, K, I), elems(n.Vectors), sloff(n.Vectors), S(float32), len(n.Vectors))
  ensures [size] err == nil ==> size == max(old(size), old(pos) + bnpos(*n, K, I))
  ensures [others] forall i int {disk[i]} :: i < old(pos) || i >= old(pos) + bnpos(*n, K, I) ==> disk[i] == old(disk)[i]
  ensures [grows] size >= old(size)
  ensures [io] iofail <==> old(iofail) || err != nil
  at aftercall MarshalBinary
    use bvec_def(elems($r), $r.off, n.VectorDim, bvpos(*n, K, I), elems(n.Vectors), sloff(n.Vectors), S(float32), len(n.Vectors))
  at aftercall MarshalBinary
    assert [written] bvec(elems($r), $r.off, n.VectorDim, bvpos(*n, K, I), elems(n.Vectors), sloff(n.Vectors), S(float32), len(n.Vectors))
  at aftercall Write
    use benc_move(elems(buf), buf.off, disk, old(pos), *n, K, I, elems(n.Vectors), S(float32))
lemma bnp_small(n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64)
  props C11
  noauto
  requires bseq(n) && len(n.Ids) > 0 && 1 <= n.VectorDim && n.VectorDim < 1073741824 && bnpos(n, K, I) < 100000
  use bkpos_lo(K, sloff(n.Ids), len(n.Ids))
  use ipos_lo(I, sloff(n.Offsets), bkpos(K, sloff(n.Ids), len(n.Ids)), len(n.Offsets))
  use vpos_lo(n.VectorDim, bvpos(n, K, I), len(n.Vectors))
  ensures [shape] bshape(n)
  ensures [size] 4 <= bnpos(n, K, I)
  ensures [same] bnpos(n, K, I) == bsz(K, sloff(n.Ids), len(n.Ids), I, sloff(n.Offsets), len(n.Offsets), n.VectorDim)
fn bmemn(q, d int) int = bmem(H(BTreeNode), S(pointer.ReferencedId), S(hnsw.Point), S(float32), S(uint64), d, q)
fn bpn(q, w, d, A int) bool = bnodein(H(BTreeNode), S(pointer.ReferencedId), S(hnsw.Point), S(uint64), q, w, d, A)
fn bns(q int) int = bnpos(H(BTreeNode)[q], S(pointer.ReferencedId)[arr(H(BTreeNode)[q].Ids)], S(uint64)[arr(H(BTreeNode)[q].Offsets)])
fn bnsmall(q int) bool = bshape(H(BTreeNode)[q]) && bns(q) <= 4096
fn bmpage(D [int]int, d, P, x int) bool = bgood(d, page(D, P)) && bdn(d, page(D, P)) == x
ghost jK [int]pointer.ReferencedId
ghost jKo int
ghost jW [int]hnsw.Point
ghost jWo int
ghost jQ BTreeNode
ghost jH [int]BTreeNode
ghost jSK [int][int]pointer.ReferencedId
ghost jSV [int][int]hnsw.Point
ghost jSI [int][int]uint64

func (*BTree).Insert(t, key, vector) (err error)
  props C11, C19
  merge all
  split

  let r = btroot(disk, *t)
  let d = t.VectorDim
  let N = bmap(disk, t.VectorDim)
  let s = key.Value
  let h = th
  let v = ent(key.DataPointer.Offset, key.DataPointer.Length, vec(elems(vector), sloff(vector), t.VectorDim))
  let none = btnone(disk, *t)
  let M = mpos(t.MetaPage)
  requires btenv(*t) && t.VectorDim <= 500 && size <= 4611686018427387904 && len(vector) == t.VectorDim && alive(vector)
  requires btnone(disk, *t) || btreeok(disk, size, used, t.VectorDim, oth, r, th)
  requires mpos(t.MetaPage) >= 4096 && mpos(t.MetaPage) % 4096 + 12 <= 4096 && mpos(t.MetaPage) + 12 <= size && oth[mpg(t.MetaPage)] && (forall q int {oth[q]} :: oth[q] ==> used[q])
  modifies disk, size, pos, iofail, used, th, tl, tA, iV, iD, iE, iN, iU, iI, iIo, iM, iY, iR, iP, iC, iZ, iX, jK, jKo, jW, jWo, jQ, jH, jSK, jSV, jSI
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [grows] size >= old(size)
  ensures [tree] err == nil ==> !btnone(disk, *t) && btreeok(disk, size, used, d, oth, btroot(disk, *t), th)
  ensures [entries] err == nil && !none ==> ents(bmap(disk, d), btroot(disk, *t), th, N, r, h, s, v)
  ensures [first] err == nil && none ==> forall z int {tp(bmap(disk, d), btroot(disk, *t), z, th)} :: has(bmap(disk, d), btroot(disk, *t), th, z) <==> z == s
  ensures [firstvalue] err == nil && none ==> val(bmap(disk, d), btroot(disk, *t), th, s) == v
  ensures [duplicate] !none && has(N, r, h, s) ==> err != nil && disk == old(disk) && size == old(size)
  ensures [others] err == nil ==> forall i int {disk[i]} :: i >= 4096 && oth[i - i % 4096] && (i < M || i >= M + 12) ==> disk[i] == old(disk)[i]
  at beforecall traverse
    set tl = 0
  at beforecall traverse
    use W_height(N, r, th)
  at beforecall traverse
    use at_top(N, r, s, 0)
  at entry
    set tA = alloc
  at beforecall MarshalBinary#1
    set iP = $n
  at beforecall MarshalBinary#1
    use idsok_def(elems($n.Ids), sloff($n.Ids), 1)
  at beforecall MarshalBinary#1
    use chsok_def(elems($n.Offsets), sloff($n.Offsets), 0)
  at beforecall MarshalBinary#1
    use vecsok_def(elems($n.Vectors), sloff($n.Vectors), 1, d, tA)
  at beforecall MarshalBinary#1
    assert [one] len($n.Ids) == 1 && len($n.Vectors) == 1 && len($n.Offsets) == 0 && $n.VectorDim == d && elems($n.Ids)[sloff($n.Ids)] == key && elems($n.Vectors)[sloff($n.Vectors)] == vector
  at beforecall MarshalBinary#1
    assert [ok] idok(key)
  at beforecall MarshalBinary#1
    assert [node] bpn($n, t.Width, d, tA)
  at beforecall MarshalBinary#1
    use bkpos_max(elems($n.Ids), sloff($n.Ids), 1, 1)
  at beforecall MarshalBinary#1
    mention ipos(elems($n.Offsets), sloff($n.Offsets), bkpos(elems($n.Ids), sloff($n.Ids), 1), 0)
  at beforecall MarshalBinary#1
    use vpos_max(d, bvpos(*$n, elems($n.Ids), elems($n.Offsets)), 1)
  at beforecall MarshalBinary#1
    assert [size] bns($n) <= 4096
  at beforecall MarshalBinary#1
    use bnp_small(*$n, elems($n.Ids), elems($n.Offsets))
  at beforecall MarshalBinary#1
    use vecsok_def(elems($n.Vectors), sloff($n.Vectors), len($n.Vectors), d, tA)
  at beforecall MarshalBinary#1
    assert [vecs] vecok(*$n)
  at aftercall NewPage#1
    assert [copied] $err == nil ==> (copied(elems(buf), buf.off, disk, $r, bns(iP)) && bnsmall(iP))
  at aftercall NewPage#1
    use bvec_def(elems(buf), buf.off, d, bvpos(H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets)), elems(H(BTreeNode)[iP].Vectors), sloff(H(BTreeNode)[iP].Vectors), S(float32), len(H(BTreeNode)[iP].Vectors))
  at aftercall NewPage#1
    assert [enc] $err == nil ==> (benc(elems(buf), buf.off, H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets)) && bvec(elems(buf), buf.off, d, bvpos(H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets)), elems(H(BTreeNode)[iP].Vectors), sloff(H(BTreeNode)[iP].Vectors), S(float32), len(H(BTreeNode)[iP].Vectors)))
  at aftercall NewPage#1
    use benc_move(elems(buf), buf.off, disk, $r, H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets), elems(H(BTreeNode)[iP].Vectors), S(float32))
  at aftercall NewPage#1
    use bpage_holds(d, disk, $r, H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets), elems(H(BTreeNode)[iP].Vectors), S(float32))
  at aftercall NewPage#1
    set iE = disk
  at aftercall NewPage#1
    set iY = $r
  at aftercall NewPage#1
    assert [new] $err == nil ==> bmpage(disk, d, iY, bmemn(iP, d))
  at aftercall NewPage#1
    use bmem_head(H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Vectors), S(float32), elems(H(BTreeNode)[iP].Offsets), d)
  at aftercall NewPage#1
    use bmem_entry(H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Vectors), S(float32), elems(H(BTreeNode)[iP].Offsets), d, 0)
  at aftercall SetRoot#1
    set th = 0
  at aftercall SetRoot#1
    use page_same(iE, disk, iY)
  at aftercall SetRoot#1
    use bleaf_tree(iY, disk, size, used, d, oth)
  at aftercall SetRoot#1
    use forall z int {tp(bmap(disk, d), iY, z, 0)} :: bleaf_has(iY, disk, d, z)
  at beforecall BinarySearchFunc
    use W_node(N, r, th, s, th)
  at beforecall BinarySearchFunc
    use W_height(N, r, th)
  at beforecall BinarySearchFunc
    use bsearch_pre(*path[0].node, elems(path[0].node.Ids), elems(path[0].node.Vectors), S(float32), elems(path[0].node.Offsets), d)
  at beforecall BinarySearchFunc
    use bmem_head(*path[0].node, elems(path[0].node.Ids), elems(path[0].node.Vectors), S(float32), elems(path[0].node.Offsets), d)
  at aftercall BinarySearchFunc
    use bsearch_post(*path[0].node, elems(path[0].node.Ids), elems(path[0].node.Vectors), S(float32), elems(path[0].node.Offsets), d, s, $place)
  at aftercall BinarySearchFunc
    use not_found(nd(N, r, s, th), s, $place)
  at aftercall BinarySearchFunc
    set jK = elems(path[0].node.Ids)
  at aftercall BinarySearchFunc
    set jKo = sloff(path[0].node.Ids)
  at aftercall BinarySearchFunc
    set jW = elems(path[0].node.Vectors)
  at aftercall BinarySearchFunc
    set jWo = sloff(path[0].node.Vectors)
  at aftercall BinarySearchFunc
    set jH = H(BTreeNode)
  at aftercall BinarySearchFunc
    set jSK = S(pointer.ReferencedId)
  at aftercall BinarySearchFunc
    set jSV = S(hnsw.Point)
  at aftercall BinarySearchFunc
    set jSI = S(uint64)
  loop 0
    modifies disk, size, pos, iofail, used, th, iV, iD, iE, iN, iU, iI, iIo, iM, iY, iR, iP, iC, iZ, iX, jK, jKo, jW, jWo, jQ, jH, jSK, jSV, jSI, H(BTreeNode), S(pointer.ReferencedId), S(hnsw.Point), S(uint64)
    enter assert [keys] insid(jK, jKo, len(path[0].node.Ids) - 1, elems(path[0].node.Ids), sloff(path[0].node.Ids), j, key)
    enter assert [vecs] insv(jW, jWo, len(path[0].node.Ids) - 1, elems(path[0].node.Vectors), sloff(path[0].node.Vectors), j, vector)
    enter use bmem_grown(jK, elems(path[0].node.Ids), jKo, sloff(path[0].node.Ids), len(path[0].node.Ids) - 1, jW, elems(path[0].node.Vectors), jWo, sloff(path[0].node.Vectors), S(float32), d, elems(path[0].node.Offsets), elems(path[0].node.Offsets), sloff(path[0].node.Offsets), sloff(path[0].node.Offsets), j, key, vector)
    enter assert [ok] idok(key) && len(vector) == d && arr(vector) < tA
    enter use ids_grown(jK, elems(path[0].node.Ids), jKo, sloff(path[0].node.Ids), len(path[0].node.Ids) - 1, j, key)
    enter use vecs_grown(jW, elems(path[0].node.Vectors), jWo, sloff(path[0].node.Vectors), len(path[0].node.Ids) - 1, j, vector, d, tA)
    enter use bsz_leaf(jK, elems(path[0].node.Ids), jKo, sloff(path[0].node.Ids), len(path[0].node.Ids) - 1, elems(path[0].node.Offsets), elems(path[0].node.Offsets), sloff(path[0].node.Offsets), sloff(path[0].node.Offsets), d)
    enter assert [grown] grown(N[tp(N, r, s, th)], bmemn(path[0].node, d), j, s, v)
    enter use bins_start(disk, size, used, d, oth, r, th, s, v, bmemn(path[0].node, d))
    enter set iV = N[tp(N, r, s, th) <- bmemn(path[0].node, d)]
    enter use forall l int {tp(iV, r, s, l)} :: ins_path(N, r, th, s, bmemn(path[0].node, d), l)
    enter use forall l int {tp(iV, r, s, l)} :: W_node(iV, r, th, s, l)
    enter assert [rest] forall j int {path[j]} :: 0 < j && j < len(path) ==> *path[j].node == jH[path[j].node] && elems(path[j].node.Ids) == jSK[arr(path[j].node.Ids)] && elems(path[j].node.Vectors) == jSV[arr(path[j].node.Vectors)] && elems(path[j].node.Offsets) == jSI[arr(path[j].node.Offsets)]
    enter assert [leaf] bpn(path[0].node, t.Width, d, tA) && bns(path[0].node) <= 4121 + 4 * d
    enter assert [fresh] fresh(path[0].node) && fresh(path[0].node.Ids) && fresh(path[0].node.Vectors) && alive(path[0].node) && alive(path[0].node.Ids) && alive(path[0].node.Vectors)
    invariant [io] iofail <==> old(iofail)
    invariant [index] 0 <= i && i <= th && len(path) == th + 1 && th == h
    invariant [size] size >= old(size) && size <= 4611686018427387904
    invariant [tree] W(iV, r, th)
    invariant [rep] brep(iV, disk, d, tp(iV, r, s, th - i), tp(iV, r, s, th - i))
    invariant [pages] bvpages(iV, r, th, disk, size, used, d, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i))
    invariant [entries] ents(iV, r, th, N, r, h, s, v)
    invariant [nodes] forall j int {path[j]} :: i <= j && j < len(path) ==> bpn(path[j].node, t.Width, d, tA) && bmemn(path[j].node, d) == nd(iV, r, s, th - j)
    invariant [offsets] forall j int {path[j]} :: i <= j && j < len(path) ==> path[j].ptr.Offset == tp(iV, r, s, th - j)
    invariant [index2] forall j int {path[j]} :: i < j && j < len(path) ==> path[j].index == ix(iV, r, s, th - j)
    invariant [fits] forall j int {path[j]} :: i < j && j < len(path) ==> bns(path[j].node) <= 4096
    invariant [big] bns(path[i].node) <= (i == 0 ? 4121 : 4131) + 4 * d
    invariant [fresh] forall j int {path[j]} :: i <= j && j < len(path) ==> fresh(path[j].node) && fresh(path[j].node.Ids) && fresh(path[j].node.Vectors) && (len(path[j].node.Offsets) > 0 ==> fresh(path[j].node.Offsets))
    invariant [alive] forall j int {path[j]} :: i <= j && j < len(path) ==> alive(path[j].node) && alive(path[j].node.Ids) && alive(path[j].node.Vectors) && alive(path[j].node.Offsets)
    invariant [inner] forall j int {path[j]} :: i <= j && j < len(path) ==> (j == 0 ? len(path[j].node.Offsets) == 0 : len(path[j].node.Offsets) > 0 && cap(path[j].node.Offsets) > 0) && cap(path[j].node.Ids) > 0 && cap(path[j].node.Vectors) > 0
    invariant [arrays] forall j, m int {path[j], path[m]} :: i <= j && j < m && m < len(path) ==> path[j].node != path[m].node && arr(path[j].node.Ids) != arr(path[m].node.Ids) && arr(path[j].node.Vectors) != arr(path[m].node.Vectors) && (j > 0 ==> arr(path[j].node.Offsets) != arr(path[m].node.Offsets))
    invariant [meta] forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q]
    invariant [used] forall q int {used[q]} :: old(used)[q] ==> used[q]
  at beforecall Size
    set iD = disk
  at beforecall Size
    set iN = size
  at beforecall Size
    set iU = used
  at beforecall Size
    set jH = H(BTreeNode)
  at beforecall Size
    set jSK = S(pointer.ReferencedId)
  at beforecall Size
    set jSV = S(hnsw.Point)
  at beforecall Size
    set jSI = S(uint64)
  at beforecall Size
    set jQ = *path[i + 1].node
  at beforecall Size
    set jK = elems(path[i + 1].node.Ids)
  at beforecall Size
    set jKo = sloff(path[i + 1].node.Ids)
  at beforecall Size
    set jW = elems(path[i + 1].node.Vectors)
  at beforecall Size
    set jWo = sloff(path[i + 1].node.Vectors)
  at beforecall Size
    set iI = elems(path[i + 1].node.Offsets)
  at beforecall Size
    set iIo = sloff(path[i + 1].node.Offsets)
  at beforecall Size
    assert [prev] forall j int {path[j]} :: i + 1 < j && j < len(path) ==> bnodein(jH, jSK, jSV, jSI, path[j].node, t.Width, d, tA) && bmem(jH, jSK, jSV, S(float32), jSI, d, path[j].node) == nd(iV, r, s, th - j)
  at beforecall Size
    assert [fitp] forall j int {path[j]} :: i + 1 < j && j < len(path) ==> bnpos(jH[path[j].node], jSK[arr(jH[path[j].node].Ids)], jSI[arr(jH[path[j].node].Offsets)]) <= 4096
  at beforecall Size
    assert [offs] forall j int {path[j]} :: i + 1 <= j && j < len(path) ==> path[j].ptr.Offset == tp(iV, r, s, th - j)
  at beforecall Size
    assert [inds] forall j int {path[j]} :: i + 1 < j && j < len(path) ==> path[j].index == ix(iV, r, s, th - j)
  at beforecall Size
    use W_node(iV, r, th, s, th - i)
  at beforecall Size
    use W_node(iV, r, th, s, th - i - 1)
  at beforecall Size
    use bvpages_at(iV, r, th, disk, size, used, d, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i), s, th - i)
  at beforecall Size
    use bvpages_at(iV, r, th, disk, size, used, d, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i), s, th - i - 1)
  at beforecall Size
    use at_step(iV, r, s, th - i)
  at beforecall Size
    use bmem_head(*path[i + 1].node, elems(path[i + 1].node.Ids), elems(path[i + 1].node.Vectors), S(float32), elems(path[i + 1].node.Offsets), d)
  at beforecall Size
    use idx_range(bmemn(path[i + 1].node, d), s)
  at beforecall Size
    assert [above] i + 1 < len(path) ==> bmemn(path[i + 1].node, d) == nd(iV, r, s, th - i - 1) && path[i + 1].index == ix(iV, r, s, th - i - 1) && len(path[i + 1].node.Offsets) == len(path[i + 1].node.Ids) + 1 && len(path[i + 1].node.Vectors) == len(path[i + 1].node.Ids)
  at beforecall Size
    assert [parent] i + 1 < len(path) ==> bpn(path[i + 1].node, t.Width, d, tA) && bns(path[i + 1].node) <= 4096
  at beforecall Size
    assert [here] path[i].ptr.Offset == tp(iV, r, s, th - i) && bmemn(path[i].node, d) == nd(iV, r, s, th - i)
  at beforecall Size
    use bmem_child(*path[i + 1].node, elems(path[i + 1].node.Ids), elems(path[i + 1].node.Vectors), S(float32), elems(path[i + 1].node.Offsets), d, path[i + 1].index)
  at beforecall Size
    assert [slot] i + 1 < len(path) ==> elems(path[i + 1].node.Offsets)[sloff(path[i + 1].node.Offsets) + path[i + 1].index] == path[i].ptr.Offset && 0 <= path[i + 1].index && path[i + 1].index <= len(path[i + 1].node.Ids)
  at beforecall Size
    use bnp_small(*path[i + 1].node, elems(path[i + 1].node.Ids), elems(path[i + 1].node.Offsets))
  at beforecall Size
    assert [bszp] i + 1 < len(path) ==> bsz(jK, jKo, len(jQ.Ids), iI, iIo, len(jQ.Offsets), d) <= 4096 && len(jQ.Offsets) == len(jQ.Ids) + 1
  at beforecall Size
    use bnp_small(*path[i].node, elems(path[i].node.Ids), elems(path[i].node.Offsets))
  at beforecall MarshalBinary#2
    set iP = $n
  at beforecall MarshalBinary#2
    set iM = mid
  at beforecall MarshalBinary#2
    assert [leafpart] len(path[i].node.Offsets) == 0 ==> elems($n.Ids) == elems(path[i].node.Ids) && sloff($n.Ids) == sloff(path[i].node.Ids) + mid && len($n.Ids) == len(path[i].node.Ids) - mid && elems($n.Vectors) == elems(path[i].node.Vectors) && sloff($n.Vectors) == sloff(path[i].node.Vectors) + mid && len($n.Vectors) == len(path[i].node.Ids) - mid && len($n.Offsets) == 0 && len(path[i].node.Ids) == len(path[i].node.Vectors)
  at beforecall MarshalBinary#2
    assert [innerpart] len(path[i].node.Offsets) > 0 ==> elems($n.Ids) == elems(path[i].node.Ids) && sloff($n.Ids) == sloff(path[i].node.Ids) + mid + 1 && len($n.Ids) == len(path[i].node.Ids) - mid - 1 && elems($n.Vectors) == elems(path[i].node.Vectors) && sloff($n.Vectors) == sloff(path[i].node.Vectors) + mid + 1 && len($n.Vectors) == len(path[i].node.Ids) - mid - 1 && elems($n.Offsets) == elems(path[i].node.Offsets) && sloff($n.Offsets) == sloff(path[i].node.Offsets) + mid + 1 && len($n.Offsets) == len(path[i].node.Ids) - mid && len(path[i].node.Ids) + 1 == len(path[i].node.Offsets)
  at beforecall MarshalBinary#2
    assert [node] bpn(path[i].node, t.Width, d, tA) && bns(path[i].node) > 4096 && bns(path[i].node) <= (i == 0 ? 4121 : 4131) + 4 * d && (i == 0 <==> len(path[i].node.Offsets) == 0)
  at beforecall MarshalBinary#2
    use bnp_small(*path[i].node, elems(path[i].node.Ids), elems(path[i].node.Offsets))
  at beforecall MarshalBinary#2
    assert [sizes] bns(path[i].node) == bsz(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids), elems(path[i].node.Offsets), sloff(path[i].node.Offsets), len(path[i].node.Offsets), d)
  at beforecall MarshalBinary#2
    use bhalf_leaf(elems(path[i].node.Ids), sloff(path[i].node.Ids), elems(path[i].node.Offsets), sloff(path[i].node.Offsets), sloff($n.Offsets), d, len(path[i].node.Ids))
  at beforecall MarshalBinary#2
    use bhalf_inner(elems(path[i].node.Ids), sloff(path[i].node.Ids), elems(path[i].node.Offsets), sloff(path[i].node.Offsets), d, len(path[i].node.Ids))
  at beforecall MarshalBinary#2
    use ids_part(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids), mid, len(path[i].node.Ids) - mid)
  at beforecall MarshalBinary#2
    use ids_part(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids), mid + 1, len(path[i].node.Ids) - mid - 1)
  at beforecall MarshalBinary#2
    use ids_part(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids), 0, mid)
  at beforecall MarshalBinary#2
    use vecs_part(elems(path[i].node.Vectors), sloff(path[i].node.Vectors), len(path[i].node.Ids), mid, len(path[i].node.Ids) - mid, d, tA)
  at beforecall MarshalBinary#2
    use vecs_part(elems(path[i].node.Vectors), sloff(path[i].node.Vectors), len(path[i].node.Ids), mid + 1, len(path[i].node.Ids) - mid - 1, d, tA)
  at beforecall MarshalBinary#2
    use vecs_part(elems(path[i].node.Vectors), sloff(path[i].node.Vectors), len(path[i].node.Ids), 0, mid, d, tA)
  at beforecall MarshalBinary#2
    use chs_part(elems(path[i].node.Offsets), sloff(path[i].node.Offsets), len(path[i].node.Ids) + 1, mid + 1, len(path[i].node.Ids) - mid)
  at beforecall MarshalBinary#2
    use chs_part(elems(path[i].node.Offsets), sloff(path[i].node.Offsets), len(path[i].node.Ids) + 1, 0, mid + 1)
  at beforecall MarshalBinary#2
    use chsok_def(elems($n.Offsets), sloff($n.Offsets), len($n.Offsets))
  at beforecall MarshalBinary#2
    use bmem_head(*path[i].node, elems(path[i].node.Ids), elems(path[i].node.Vectors), S(float32), elems(path[i].node.Offsets), d)
  at beforecall MarshalBinary#2
    assert [cut] 0 < mid && (leaf(nd(iV, r, s, th - i)) ? mid : mid + 1) < nk(nd(iV, r, s, th - i))
  at beforecall MarshalBinary#2
    use bmem_entry(*path[i].node, elems(path[i].node.Ids), elems(path[i].node.Vectors), S(float32), elems(path[i].node.Offsets), d, mid)
  at beforecall MarshalBinary#2
    use idsok_def(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids))
  at beforecall MarshalBinary#2
    use vecsok_def(elems(path[i].node.Vectors), sloff(path[i].node.Vectors), len(path[i].node.Ids), d, tA)
  at beforecall MarshalBinary#2
    assert [sepid] midKey == elems(path[i].node.Ids)[sloff(path[i].node.Ids) + mid] && midVector == elems(path[i].node.Vectors)[sloff(path[i].node.Vectors) + mid]
  at beforecall MarshalBinary#2
    assert [sepok] idok(midKey) && len(midVector) == d && arr(midVector) < tA
  at beforecall MarshalBinary#2
    assert [sep] midKey.Value == ky(nd(iV, r, s, th - i), mid)
  at beforecall MarshalBinary#2
    assert [rightok] bpn($n, t.Width, d, tA)
  at beforecall MarshalBinary#2
    mention ipos(elems($n.Offsets), sloff($n.Offsets), bkpos(elems(path[i].node.Ids), sloff(path[i].node.Ids) + mid, len(path[i].node.Ids) - mid), 0)
  at beforecall MarshalBinary#2
    mention ipos(elems(path[i].node.Offsets), sloff($n.Offsets), bkpos(elems(path[i].node.Ids), sloff(path[i].node.Ids) + mid, len(path[i].node.Ids) - mid), 0)
  at beforecall MarshalBinary#2
    assert [right] bns($n) <= 4096
  at beforecall MarshalBinary#2
    use bnp_small(*$n, elems($n.Ids), elems($n.Offsets))
  at beforecall MarshalBinary#2
    use vecsok_def(elems($n.Vectors), sloff($n.Vectors), len($n.Vectors), d, tA)
  at beforecall MarshalBinary#2
    assert [vecs] vecok(*$n)
  at beforecall MarshalBinary#2
    assert [rights] bnsmall($n)
  at beforecall MarshalBinary#2
    assert [leafpart] len(path[i].node.Offsets) == 0 ==> elems($n.Ids) == elems(path[i].node.Ids) && sloff($n.Ids) == sloff(path[i].node.Ids) + mid && len($n.Ids) == len(path[i].node.Ids) - mid && elems($n.Vectors) == elems(path[i].node.Vectors) && sloff($n.Vectors) == sloff(path[i].node.Vectors) + mid && len($n.Vectors) == len(path[i].node.Ids) - mid && len($n.Offsets) == 0 && len(path[i].node.Ids) == len(path[i].node.Vectors)
  at beforecall MarshalBinary#2
    assert [innerpart] len(path[i].node.Offsets) > 0 ==> elems($n.Ids) == elems(path[i].node.Ids) && sloff($n.Ids) == sloff(path[i].node.Ids) + mid + 1 && len($n.Ids) == len(path[i].node.Ids) - mid - 1 && elems($n.Vectors) == elems(path[i].node.Vectors) && sloff($n.Vectors) == sloff(path[i].node.Vectors) + mid + 1 && len($n.Vectors) == len(path[i].node.Ids) - mid - 1 && elems($n.Offsets) == elems(path[i].node.Offsets) && sloff($n.Offsets) == sloff(path[i].node.Offsets) + mid + 1 && len($n.Offsets) == len(path[i].node.Ids) - mid && len(path[i].node.Ids) + 1 == len(path[i].node.Offsets)
  at beforecall MarshalBinary#2
    assert [mids] (len(path[i].node.Offsets) == 0 ==> 0 < mid && mid < len(path[i].node.Ids)) && (len(path[i].node.Offsets) > 0 ==> 0 < mid && mid + 1 < len(path[i].node.Ids))
  at beforecall MarshalBinary#2
    assert [leafpart] len(path[i].node.Offsets) == 0 ==> elems($n.Ids) == elems(path[i].node.Ids) && sloff($n.Ids) == sloff(path[i].node.Ids) + mid && len($n.Ids) == len(path[i].node.Ids) - mid && elems($n.Vectors) == elems(path[i].node.Vectors) && sloff($n.Vectors) == sloff(path[i].node.Vectors) + mid && len($n.Vectors) == len(path[i].node.Ids) - mid && len($n.Offsets) == 0 && len(path[i].node.Ids) == len(path[i].node.Vectors)
  at beforecall MarshalBinary#2
    use bmem_halves(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids), elems(path[i].node.Vectors), sloff(path[i].node.Vectors), S(float32), d, elems(path[i].node.Offsets), elems($n.Offsets), sloff(path[i].node.Offsets), sloff($n.Offsets), mid)
  at beforecall MarshalBinary#2
    assert [halfl] len(path[i].node.Offsets) == 0 ==> righthalf(bmemn(path[i].node, d), bmemn($n, d), mid)
  at beforecall MarshalBinary#2
    assert [innerpart] len(path[i].node.Offsets) > 0 ==> elems($n.Ids) == elems(path[i].node.Ids) && sloff($n.Ids) == sloff(path[i].node.Ids) + mid + 1 && len($n.Ids) == len(path[i].node.Ids) - mid - 1 && elems($n.Vectors) == elems(path[i].node.Vectors) && sloff($n.Vectors) == sloff(path[i].node.Vectors) + mid + 1 && len($n.Vectors) == len(path[i].node.Ids) - mid - 1 && elems($n.Offsets) == elems(path[i].node.Offsets) && sloff($n.Offsets) == sloff(path[i].node.Offsets) + mid + 1 && len($n.Offsets) == len(path[i].node.Ids) - mid && len(path[i].node.Ids) + 1 == len(path[i].node.Offsets)
  at beforecall MarshalBinary#2
    use bmem_halvesi(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids), elems(path[i].node.Vectors), sloff(path[i].node.Vectors), S(float32), d, elems(path[i].node.Offsets), sloff(path[i].node.Offsets), mid)
  at beforecall MarshalBinary#2
    assert [halfi] len(path[i].node.Offsets) > 0 ==> righthalf(bmemn(path[i].node, d), bmemn($n, d), mid)
  at beforecall MarshalBinary#2
    assert [half] righthalf(nd(iV, r, s, th - i), bmemn($n, d), mid)
  at aftercall NewPage#2
    assert [copied] $err == nil ==> (copied(elems(mbuf), mbuf.off, disk, $r, bns(iP)) && bnsmall(iP))
  at aftercall NewPage#2
    use bvec_def(elems(mbuf), mbuf.off, d, bvpos(H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets)), elems(H(BTreeNode)[iP].Vectors), sloff(H(BTreeNode)[iP].Vectors), S(float32), len(H(BTreeNode)[iP].Vectors))
  at aftercall NewPage#2
    assert [enc] $err == nil ==> (benc(elems(mbuf), mbuf.off, H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets)) && bvec(elems(mbuf), mbuf.off, d, bvpos(H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets)), elems(H(BTreeNode)[iP].Vectors), sloff(H(BTreeNode)[iP].Vectors), S(float32), len(H(BTreeNode)[iP].Vectors)))
  at aftercall NewPage#2
    use benc_move(elems(mbuf), mbuf.off, disk, $r, H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets), elems(H(BTreeNode)[iP].Vectors), S(float32))
  at aftercall NewPage#2
    use bpage_holds(d, disk, $r, H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets), elems(H(BTreeNode)[iP].Vectors), S(float32))
  at aftercall NewPage#2
    set iE = disk
  at aftercall NewPage#2
    set iY = $r
  at aftercall NewPage#2
    set iR = bmemn(iP, d)
  at aftercall NewPage#2
    assert [new] $err == nil ==> bmpage(disk, d, iY, iR)
  at aftercall NewPage#2
    assert [oute] $err == nil ==> forall a int {iE[a]} :: a >= 4096 && a - a % 4096 != iY ==> iE[a] == iD[a]
  at aftercall NewPage#2
    use bv_unreached(iV, iD, r, th, iN, iU, d, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i), $r)
  at beforecall WriteTo#1
    use chsok_def(elems($n.Offsets), sloff($n.Offsets), len($n.Offsets))
  at beforecall WriteTo#1
    assert [leftok] bpn($n, t.Width, d, tA)
  at beforecall WriteTo#1
    assert [seek] pos == tp(iV, r, s, th - i) && tp(iV, r, s, th - i) + 4096 <= iN && iN <= size && size <= 4611686018427387904
  at beforecall WriteTo#1
    assert [left] bns($n) <= 4096
  at beforecall WriteTo#1
    use bnp_small(*$n, elems($n.Ids), elems($n.Offsets))
  at beforecall WriteTo#1
    use vecsok_def(elems($n.Vectors), sloff($n.Vectors), len($n.Vectors), d, tA)
  at beforecall WriteTo#1
    assert [vecs] vecok(*$n)
  at beforecall WriteTo#1
    assert [small] bnsmall($n)
  at beforecall WriteTo#1
    assert [half] lefthalf(nd(iV, r, s, th - i), bmemn($n, d), iM)
  at beforecall WriteTo#1
    assert [size] $n == path[i].node
  at aftercall WriteTo#1
    use bpage_holds(d, disk, tp(iV, r, s, th - i), *path[i].node, elems(path[i].node.Ids), elems(path[i].node.Offsets), elems(path[i].node.Vectors), S(float32))
  at aftercall WriteTo#1
    assert [apart] $err == nil ==> (iY + 4096 <= tp(iV, r, s, th - i) || tp(iV, r, s, th - i) + 4096 <= iY)
  at aftercall WriteTo#1
    assert [same] $err == nil ==> pagesame(iE, disk, iY)
  at aftercall WriteTo#1
    use page_same(iE, disk, iY)
  at aftercall WriteTo#1
    set iC = bmemn(path[i].node, d)
  at aftercall WriteTo#1
    assert [parent] $err == nil ==> (i + 1 < len(path) ==> *path[i + 1].node == jQ && elems(path[i + 1].node.Ids) == jK && elems(path[i + 1].node.Vectors) == jW && elems(path[i + 1].node.Offsets) == iI)
  at aftercall WriteTo#1
    assert [held] $err == nil ==> bmpage(disk, d, tp(iV, r, s, th - i), iC)
  at aftercall WriteTo#1
    assert [new] $err == nil ==> bmpage(disk, d, iY, iR)
  at aftercall WriteTo#1
    assert [outE] $err == nil ==> (forall a int {disk[a]} :: a < tp(iV, r, s, th - i) || a >= tp(iV, r, s, th - i) + 4096 ==> disk[a] == iE[a])
  at aftercall WriteTo#1
    assert [oute] $err == nil ==> (forall a int {iE[a]} :: a >= 4096 && a - a % 4096 != iY ==> iE[a] == iD[a])
  at aftercall WriteTo#1
    assert [pages] $err == nil ==> (pg(iY) && pg(tp(iV, r, s, th - i)))
  at aftercall WriteTo#1
    assert [outside] $err == nil ==> (forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != tp(iV, r, s, th - i) && a - a % 4096 != iY ==> disk[a] == iD[a])
  at aftercall WriteTo#1
    assert [alloc] $err == nil ==> (iN <= size && iY + 4096 <= size && size <= 4611686018427387904 && used[iY] && !oth[iY] && pg(iY) && !oth[tp(iV, r, s, th - i)])
  at aftercall WriteTo#1
    assert [metaD] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == iD[q])
  at aftercall WriteTo#1
    assert [meta] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q])
  at aftercall WriteTo#1
    assert [inuse] $err == nil ==> (forall q int {used[q]} :: iU[q] ==> used[q])
  at beforecall MarshalBinary#3
    set iP = $n
  at beforecall MarshalBinary#3
    assert [meta] forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q]
  at beforecall MarshalBinary#3
    assert [outside] forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != r && a - a % 4096 != iY ==> disk[a] == iD[a]
  at beforecall MarshalBinary#3
    use idsok_def(elems($n.Ids), sloff($n.Ids), 1)
  at beforecall MarshalBinary#3
    use chsok_def(elems($n.Offsets), sloff($n.Offsets), 2)
  at beforecall MarshalBinary#3
    use vecsok_def(elems($n.Vectors), sloff($n.Vectors), 1, d, tA)
  at beforecall MarshalBinary#3
    assert [root] i == th && len($n.Ids) == 1 && len($n.Offsets) == 2 && len($n.Vectors) == 1 && $n.VectorDim == d && $n.Width == t.Width
  at beforecall MarshalBinary#3
    assert [rootkey] elems($n.Ids)[sloff($n.Ids)] == midKey && elems($n.Vectors)[sloff($n.Vectors)] == midVector && elems($n.Offsets)[sloff($n.Offsets)] == tp(iV, r, s, th - i) && elems($n.Offsets)[sloff($n.Offsets) + 1] == iY
  at beforecall MarshalBinary#3
    assert [rootok] bpn($n, t.Width, d, tA)
  at beforecall MarshalBinary#3
    use bkpos_max(elems($n.Ids), sloff($n.Ids), 1, 1)
  at beforecall MarshalBinary#3
    use ipos_max(elems($n.Offsets), sloff($n.Offsets), bkpos(elems($n.Ids), sloff($n.Ids), 1), 2)
  at beforecall MarshalBinary#3
    use vpos_max(d, bvpos(*$n, elems($n.Ids), elems($n.Offsets)), 1)
  at beforecall MarshalBinary#3
    assert [rootsize] bns($n) <= 4096
  at beforecall MarshalBinary#3
    use bnp_small(*$n, elems($n.Ids), elems($n.Offsets))
  at beforecall MarshalBinary#3
    use vecsok_def(elems($n.Vectors), sloff($n.Vectors), len($n.Vectors), d, tA)
  at beforecall MarshalBinary#3
    assert [vecs] vecok(*$n)
  at beforecall MarshalBinary#3
    assert [small] bnsmall($n)
  at beforecall MarshalBinary#3
    set iE = disk
  at beforecall MarshalBinary#3
    set iX = bnid(elems($n.Ids), sloff($n.Ids), 0, elems($n.Vectors), sloff($n.Vectors), S(float32), d, elems($n.Offsets), sloff($n.Offsets), 1)
  at beforecall MarshalBinary#3
    use bmem_parent(elems($n.Ids), elems($n.Ids), sloff($n.Ids), sloff($n.Ids), 0, elems($n.Vectors), elems($n.Vectors), sloff($n.Vectors), sloff($n.Vectors), S(float32), d, elems($n.Offsets), elems($n.Offsets), sloff($n.Offsets), sloff($n.Offsets), 0, midKey, iY)
  at beforecall MarshalBinary#3
    mention iX
  at beforecall MarshalBinary#3
    use isbnid_def(elems($n.Ids), sloff($n.Ids), 0, elems($n.Vectors), sloff($n.Vectors), S(float32), d, elems($n.Offsets), sloff($n.Offsets), 1, iX)
  at beforecall MarshalBinary#3
    mention ch(iX, 0)
  at beforecall MarshalBinary#3
    use at_top(iV, r, s, 0)
  at beforecall MarshalBinary#3
    assert [stub] stub(iX, r) && parent(iX, bmemn($n, d), 0, midKey.Value, iY) && tp(iV, r, s, th - i) == r
  at aftercall NewPage#3
    assert [copied] $err == nil ==> (copied(elems(pbuf), pbuf.off, disk, $r, bns(iP)) && bnsmall(iP))
  at aftercall NewPage#3
    use bvec_def(elems(pbuf), pbuf.off, d, bvpos(H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets)), elems(H(BTreeNode)[iP].Vectors), sloff(H(BTreeNode)[iP].Vectors), S(float32), len(H(BTreeNode)[iP].Vectors))
  at aftercall NewPage#3
    assert [enc] $err == nil ==> (benc(elems(pbuf), pbuf.off, H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets)) && bvec(elems(pbuf), pbuf.off, d, bvpos(H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets)), elems(H(BTreeNode)[iP].Vectors), sloff(H(BTreeNode)[iP].Vectors), S(float32), len(H(BTreeNode)[iP].Vectors)))
  at aftercall NewPage#3
    use benc_move(elems(pbuf), pbuf.off, disk, $r, H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets), elems(H(BTreeNode)[iP].Vectors), S(float32))
  at aftercall NewPage#3
    use bpage_holds(d, disk, $r, H(BTreeNode)[iP], elems(H(BTreeNode)[iP].Ids), elems(H(BTreeNode)[iP].Offsets), elems(H(BTreeNode)[iP].Vectors), S(float32))
  at aftercall NewPage#3
    set iZ = $r
  at aftercall NewPage#3
    assert [root] $err == nil ==> bmpage(disk, d, iZ, bmemn(iP, d))
  at aftercall NewPage#3
    assert [apart] $err == nil ==> ((iY + 4096 <= iZ || iZ + 4096 <= iY) && (r + 4096 <= iZ || iZ + 4096 <= r) && iZ != iY && iZ != r && pg(iZ))
  at aftercall NewPage#3
    use page_same(iE, disk, iY)
  at aftercall NewPage#3
    use page_same(iE, disk, r)
  at aftercall NewPage#3
    assert [held] $err == nil ==> (bmpage(disk, d, r, iC) && bmpage(disk, d, iY, iR))
  at aftercall NewPage#3
    assert [outE] $err == nil ==> (forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != iZ ==> disk[a] == iE[a])
  at aftercall NewPage#3
    assert [oute] $err == nil ==> (forall a int {iE[a]} :: a >= 4096 && a - a % 4096 != r && a - a % 4096 != iY ==> iE[a] == iD[a])
  at aftercall NewPage#3
    assert [outside] $err == nil ==> (forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != r && a - a % 4096 != iY && a - a % 4096 != iZ ==> disk[a] == iD[a])
  at aftercall NewPage#3
    assert [alloc] $err == nil ==> (iN <= size && iY + 4096 <= size && iZ + 4096 <= size && size <= 4611686018427387904 && used[iY] && used[iZ] && !iU[iZ] && !oth[iY] && pg(iY) && !oth[iZ] && !oth[r])
  at aftercall NewPage#3
    assert [inuse] $err == nil ==> (forall q int {used[q]} :: iU[q] ==> used[q])
  at aftercall NewPage#3
    use bv_unreached(iV, iD, r, th, iN, iU, d, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i), iZ)
  at aftercall NewPage#3
    use bv_push(iV, iD, r, th, iZ, iX, iN, size, iU, used, d, oth, iY)
  at aftercall NewPage#3
    use v_root(iV, r, th, iZ, iX, s)
  at aftercall NewPage#3
    assert [pushed] $err == nil ==> (W(iV[iZ <- iX], iZ, th + 1) && brep(iV[iZ <- iX], iD, d, r, iZ) && bvpages(iV[iZ <- iX], iZ, th + 1, iD, size, used, d, oth, r, iZ) && unreached(iV[iZ <- iX], iZ, th + 1, iY))
  at aftercall NewPage#3
    use at_top(iV[iZ <- iX], iZ, s, 0)
  at aftercall NewPage#3
    use at_step(iV[iZ <- iX], iZ, s, 1)
  at aftercall NewPage#3
    use at_top(iV, r, s, 0)
  at aftercall NewPage#3
    assert [topd] $err == nil ==> (tp(iV[iZ <- iX], iZ, s, 0) == iZ && nd(iV[iZ <- iX], iZ, s, 0) == iX && tp(iV[iZ <- iX], iZ, s, 1) == r && ix(iV[iZ <- iX], iZ, s, 0) == 0 && nd(iV[iZ <- iX], iZ, s, 1) == nd(iV, r, s, 0))
  at aftercall NewPage#3
    assert [halves] $err == nil ==> (0 < iM && (leaf(nd(iV, r, s, 0)) ? iM : iM + 1) < nk(nd(iV, r, s, 0)) && lefthalf(nd(iV, r, s, 0), iC, iM) && righthalf(nd(iV, r, s, 0), iR, iM))
  at aftercall NewPage#3
    assert [rootp] $err == nil ==> (parent(iX, bmemn(iP, d), 0, ky(nd(iV, r, s, 0), iM), iY))
  at aftercall NewPage#3
    assert [split] $err == nil ==> (splitok(iV[iZ <- iX], iZ, th + 1, s, 1, iM, iY, iC, iR, bmemn(iP, d)))
  at aftercall NewPage#3
    use bv_split(iV[iZ <- iX], iZ, th + 1, s, 1, iM, iY, iC, iR, bmemn(iP, d), iD, disk, size, size, used, used, d, oth, r, iZ)
  at aftercall NewPage#3
    use split_W(iV[iZ <- iX], iZ, th + 1, s, 1, iM, iY, iC, iR, bmemn(iP, d))
  at aftercall NewPage#3
    use ents_push(iV, r, th, iZ, iX, N, r, h, s, v)
  at aftercall NewPage#3
    use ents_split(iV[iZ <- iX], iZ, th + 1, s, 1, iM, iY, iC, iR, bmemn(iP, d), N, r, h, s, v)
  at aftercall NewPage#3
    assert [treed] $err == nil ==> (W(splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, bmemn(iP, d)), iZ, th + 1) && ents(splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, bmemn(iP, d)), iZ, th + 1, N, r, h, s, v) && brep(splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, bmemn(iP, d)), disk, d, iZ, iZ) && bvpages(splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, bmemn(iP, d)), iZ, th + 1, disk, size, used, d, oth, iZ, iZ))
  at aftercall NewPage#3
    set iV = splitn(iV[iZ <- iX], iZ, s, 1, iY, iC, iR, bmemn(iP, d))
  at aftercall NewPage#3
    use bvdone_write(iV, iZ, th + 1, disk, disk, size, used, d, oth, iZ)
  at aftercall NewPage#3
    assert [done] $err == nil ==> (bvdone(iV, iZ, th + 1, disk, size, used, d, oth))
  at aftercall NewPage#3
    assert [metaO] $err == nil ==> (forall q int {iE[q]} :: q >= 4096 && oth[q - q % 4096] ==> iE[q] == old(disk)[q])
  at aftercall NewPage#3
    assert [metaE] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == iE[q])
  at aftercall NewPage#3
    set iD = disk
  at aftercall NewPage#3
    assert [meta] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q])
  at beforecall SetRoot#2
    assert [slot] 4096 <= M && M % 4096 + 12 <= 4096 && oth[M - M % 4096]
  at beforecall SetRoot#2
    assert [apart] forall i int {oth[i - i % 4096]} :: M <= i && i < M + 12 ==> i - i % 4096 == M - M % 4096
  at aftercall SetRoot#2
    set th = th + 1
  at aftercall SetRoot#2
    assert [frameM] $err == nil ==> (forall i int {disk[i]} :: i < M || i >= M + 12 ==> disk[i] == iD[i])
  at aftercall SetRoot#2
    assert [frame] $err == nil ==> (forall i int {disk[i]} :: i >= 4096 && !oth[i - i % 4096] ==> disk[i] == iD[i])
  at aftercall SetRoot#2
    use bvdone_move(iV, iZ, th, iD, disk, size, used, d, oth)
  at aftercall SetRoot#2
    use bvdone_tree(iV, iZ, th, disk, size, used, d, oth)
  at aftercall SetRoot#2
    use bvdone_agree(iV, iZ, th, disk, size, used, d, oth)
  at aftercall SetRoot#2
    use ents_agree(iV, bmap(disk, d), iZ, th, N, r, h, s, v)
  at aftercall SetRoot#2
    assert [root] $err == nil ==> (btroot(disk, *t) == iZ && !btnone(disk, *t))
  at beforecall WriteTo#2
    use W_node(iV, r, th, s, th - i)
  at beforecall WriteTo#2
    assert [node] $n == path[i].node && bpn($n, t.Width, d, tA) && bns($n) <= 4096 && bmemn($n, d) == iV[tp(iV, r, s, th - i)]
  at beforecall WriteTo#2
    use bnp_small(*$n, elems($n.Ids), elems($n.Offsets))
  at beforecall WriteTo#2
    use vecsok_def(elems($n.Vectors), sloff($n.Vectors), len($n.Vectors), d, tA)
  at beforecall WriteTo#2
    assert [vecs] vecok(*$n)
  at beforecall WriteTo#2
    assert [small] bnsmall($n)
  at beforecall WriteTo#2
    assert [seek] pos == tp(iV, r, s, th - i) && tp(iV, r, s, th - i) + 4096 <= iN && iN == size && size <= 4611686018427387904 && disk == iD && used == iU && pg(tp(iV, r, s, th - i)) && !oth[tp(iV, r, s, th - i)]
  at aftercall WriteTo#2
    use bpage_holds(d, disk, tp(iV, r, s, th - i), *path[i].node, elems(path[i].node.Ids), elems(path[i].node.Offsets), elems(path[i].node.Vectors), S(float32))
  at aftercall WriteTo#2
    assert [outP] $err == nil ==> (forall a int {disk[a]} :: a < tp(iV, r, s, th - i) || a >= tp(iV, r, s, th - i) + 4096 ==> disk[a] == iD[a])
  at aftercall WriteTo#2
    assert [held] $err == nil ==> bmpage(disk, d, tp(iV, r, s, th - i), iV[tp(iV, r, s, th - i)])
  at aftercall WriteTo#2
    assert [outside] $err == nil ==> (forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != tp(iV, r, s, th - i) ==> disk[a] == iD[a])
  at aftercall WriteTo#2
    assert [size] $err == nil ==> (size == iN && used == iU)
  at aftercall WriteTo#2
    assert [apart] $err == nil ==> (forall q int {disk[q]} :: M <= q && q < M + 12 ==> q >= 4096 && oth[q - q % 4096])
  at aftercall WriteTo#2
    use bvdone_write(iV, r, th, iD, disk, size, used, d, oth, tp(iV, r, s, th - i))
  at aftercall WriteTo#2
    use bvdone_tree(iV, r, th, disk, size, used, d, oth)
  at aftercall WriteTo#2
    use bvdone_agree(iV, r, th, disk, size, used, d, oth)
  at aftercall WriteTo#2
    use ents_agree(iV, bmap(disk, d), r, th, N, r, h, s, v)
  at aftercall WriteTo#2
    assert [meta] $err == nil ==> (forall q int {disk[q]} :: q >= 4096 && oth[q - q % 4096] ==> disk[q] == old(disk)[q])
  at aftercall WriteTo#2
    assert [slot] $err == nil ==> (forall q int {disk[q]} :: M <= q && q < M + 12 ==> disk[q] == old(disk)[q])
  at aftercall WriteTo#2
    assert [root] $err == nil ==> (btroot(disk, *t) == r && !btnone(disk, *t))
    hint assert [rest] forall j int {path[j]} :: i < j && j < len(path) ==> *path[j].node == jH[path[j].node] && elems(path[j].node.Ids) == jSK[arr(path[j].node.Ids)] && elems(path[j].node.Vectors) == jSV[arr(path[j].node.Vectors)] && elems(path[j].node.Offsets) == jSI[arr(path[j].node.Offsets)]
    hint assert [keys] insid(jK, jKo, len(path[i].node.Ids) - 1, elems(path[i].node.Ids), sloff(path[i].node.Ids), path[i].index, midKey)
    hint assert [vecs] insv(jW, jWo, len(path[i].node.Ids) - 1, elems(path[i].node.Vectors), sloff(path[i].node.Vectors), path[i].index, midVector)
    hint assert [chs] insi(iI, iIo, len(path[i].node.Ids), elems(path[i].node.Offsets), sloff(path[i].node.Offsets), path[i].index + 1, iY)
    hint assert [lens] len(path[i].node.Offsets) == len(path[i].node.Ids) + 1 && len(path[i].node.Vectors) == len(path[i].node.Ids) && len(path[i].node.Ids) >= 2
    hint assert [oldq] bnid(jK, jKo, len(path[i].node.Ids) - 1, jW, jWo, S(float32), d, iI, iIo, len(path[i].node.Ids) - 1 + 1) == nd(iV, r, s, th - i) && path[i].index == ix(iV, r, s, th - i) && 0 <= path[i].index && path[i].index <= len(path[i].node.Ids) - 1
    hint assert [keys] insid(jK, jKo, len(path[i].node.Ids) - 1, elems(path[i].node.Ids), sloff(path[i].node.Ids), path[i].index, midKey)
    hint assert [chs] insi(iI, iIo, len(path[i].node.Ids), elems(path[i].node.Offsets), sloff(path[i].node.Offsets), path[i].index + 1, iY)
    hint use bmem_parent(jK, elems(path[i].node.Ids), jKo, sloff(path[i].node.Ids), len(path[i].node.Ids) - 1, jW, elems(path[i].node.Vectors), jWo, sloff(path[i].node.Vectors), S(float32), d, iI, elems(path[i].node.Offsets), iIo, sloff(path[i].node.Offsets), path[i].index, midKey, iY)
    hint assert [parentq] parent(nd(iV, r, s, th - i), bmemn(path[i].node, d), path[i].index, midKey.Value, iY) && path[i].index == ix(iV, r, s, th - i)
    hint use ids_grown(jK, elems(path[i].node.Ids), jKo, sloff(path[i].node.Ids), len(path[i].node.Ids) - 1, path[i].index, midKey)
    hint use vecs_grown(jW, elems(path[i].node.Vectors), jWo, sloff(path[i].node.Vectors), len(path[i].node.Ids) - 1, path[i].index, midVector, d, tA)
    hint use chs_grown(iI, elems(path[i].node.Offsets), iIo, sloff(path[i].node.Offsets), len(path[i].node.Ids), path[i].index + 1, iY, bkpos(jK, jKo, len(path[i].node.Ids) - 1), bkpos(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids)))
    hint assert [jq] len(jQ.Ids) == len(path[i].node.Ids) - 1 && len(jQ.Offsets) == len(path[i].node.Ids) && bsz(jK, jKo, len(jQ.Ids), iI, iIo, len(jQ.Offsets), d) <= 4096
    hint assert [bszp] bsz(jK, jKo, len(path[i].node.Ids) - 1, iI, iIo, len(path[i].node.Ids), d) <= 4096
    hint use bsz_inner(jK, elems(path[i].node.Ids), jKo, sloff(path[i].node.Ids), len(path[i].node.Ids) - 1, iI, elems(path[i].node.Offsets), iIo, sloff(path[i].node.Offsets), d)
    hint assert [lens] len(path[i].node.Offsets) == len(path[i].node.Ids) + 1 && len(path[i].node.Vectors) == len(path[i].node.Ids) && len(path[i].node.Ids) >= 2 && path[i].node.VectorDim == d
    hint assert [bszq] bns(path[i].node) == bsz(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids), elems(path[i].node.Offsets), sloff(path[i].node.Offsets), len(path[i].node.Ids) + 1, d)
    hint assert [bszr] bsz(elems(path[i].node.Ids), sloff(path[i].node.Ids), len(path[i].node.Ids), elems(path[i].node.Offsets), sloff(path[i].node.Offsets), len(path[i].node.Ids) + 1, d) <= bsz(jK, jKo, len(path[i].node.Ids) - 1, iI, iIo, len(path[i].node.Ids), d) + 35 + 4 * d
    hint assert [grown] bns(path[i].node) <= 4131 + 4 * d
    hint use brep_more(iV, iD, r, th, iN, iU, d, oth, tp(iV, r, s, th - i + 1), tp(iV, r, s, th - i))
    hint assert [parentq] parent(nd(iV, r, s, th - i), bmemn(path[i].node, d), path[i].index, midKey.Value, iY) && path[i].index == ix(iV, r, s, th - i)
    hint assert [halves] lefthalf(nd(iV, r, s, th - i + 1), iC, iM) && righthalf(nd(iV, r, s, th - i + 1), iR, iM) && midKey.Value == ky(nd(iV, r, s, th - i + 1), iM)
    hint assert [cuts] 0 < iM && (leaf(nd(iV, r, s, th - i + 1)) ? iM : iM + 1) < nk(nd(iV, r, s, th - i + 1))
    hint assert [split] splitok(iV, r, th, s, th - i + 1, iM, iY, iC, iR, bmemn(path[i].node, d))
    hint assert [frame2] forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != tp(iV, r, s, th - i + 1) && a - a % 4096 != iY ==> disk[a] == iD[a]
    hint assert [frame3] forall a int {disk[a]} :: a >= 4096 && a - a % 4096 != tp(iV, r, s, th - i + 1) && a - a % 4096 != iY && a - a % 4096 != tp(iV, r, s, th - i) ==> disk[a] == iD[a]
    hint assert [held] bmpage(disk, d, tp(iV, r, s, th - i + 1), iC) && bmpage(disk, d, iY, iR)
    hint assert [alloc] iN <= size && iY + 4096 <= size && used[iY] && !oth[iY] && (forall q int {used[q]} :: iU[q] ==> used[q])
    hint assert [loose] brep(iV, iD, d, tp(iV, r, s, th - i + 1), tp(iV, r, s, th - i)) && bvpages(iV, r, th, iD, iN, iU, d, oth, tp(iV, r, s, th - i + 1), tp(iV, r, s, th - i))
    hint use bv_split(iV, r, th, s, th - i + 1, iM, iY, iC, iR, bmemn(path[i].node, d), iD, disk, iN, size, iU, used, d, oth, tp(iV, r, s, th - i + 1), tp(iV, r, s, th - i))
    hint assert [moved] brep(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), disk, d, tp(iV, r, s, th - i), tp(iV, r, s, th - i)) && bvpages(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, th, disk, size, used, d, oth, tp(iV, r, s, th - i), tp(iV, r, s, th - i))
    hint use v_path(iV, r, th, s, th - i + 1, iM, iY, iC, iR, bmemn(path[i].node, d), th - i)
    hint assert [place] tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, th - i) == tp(iV, r, s, th - i) && bmemn(path[i].node, d) == nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, th - i)
    hint assert [chsp] bpn(path[i].node, t.Width, d, tA)
    hint assert [prev] forall j int {path[j]} :: i < j && j < len(path) ==> bnodein(jH, jSK, jSV, jSI, path[j].node, t.Width, d, tA) && bmem(jH, jSK, jSV, S(float32), jSI, d, path[j].node) == nd(iV, r, s, th - j)
    hint assert [rest] forall j int {path[j]} :: i < j && j < len(path) ==> *path[j].node == jH[path[j].node] && elems(path[j].node.Ids) == jSK[arr(path[j].node.Ids)] && elems(path[j].node.Vectors) == jSV[arr(path[j].node.Vectors)] && elems(path[j].node.Offsets) == jSI[arr(path[j].node.Offsets)]
    hint assert [above] forall j int {path[j]} :: i < j && j < len(path) ==> bpn(path[j].node, t.Width, d, tA) && bmemn(path[j].node, d) == nd(iV, r, s, th - j)
    hint assert [pnodes] forall j int {path[j]} :: i <= j && j < len(path) ==> bpn(path[j].node, t.Width, d, tA)
    hint use split_W(iV, r, th, s, th - i + 1, iM, iY, iC, iR, bmemn(path[i].node, d))
    hint use ents_split(iV, r, th, s, th - i + 1, iM, iY, iC, iR, bmemn(path[i].node, d), N, r, h, s, v)
    hint assert [split] splitok(iV, r, th, s, th - i + 1, iM, iY, iC, iR, bmemn(path[i].node, d))
    hint use forall l int {tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, l)} :: v_path(iV, r, th, s, th - i + 1, iM, iY, iC, iR, bmemn(path[i].node, d), l)
    hint assert [along] forall l int {tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, l)} :: 0 <= l && l < th - i ==> tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, l) == tp(iV, r, s, l) && nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, l) == nd(iV, r, s, l) && ix(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, l) == ix(iV, r, s, l)
    hint assert [above] forall j int {path[j]} :: i < j && j < len(path) ==> bpn(path[j].node, t.Width, d, tA) && bmemn(path[j].node, d) == nd(iV, r, s, th - j)
    hint assert [along] forall l int {tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, l)} :: 0 <= l && l < th - i ==> tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, l) == tp(iV, r, s, l) && nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, l) == nd(iV, r, s, l) && ix(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, l) == ix(iV, r, s, l)
    hint assert [lenp] len(path) == th + 1 && 0 <= i && i <= th
    hint assert [memnj] forall j int {path[j]} :: i < j && j < len(path) ==> bmemn(path[j].node, d) == nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, th - j)
    hint assert [offs] forall j int {path[j]} :: i <= j && j < len(path) ==> path[j].ptr.Offset == tp(iV, r, s, th - j)
    hint assert [place] tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, th - i) == tp(iV, r, s, th - i)
    hint assert [offsn] forall j int {path[j]} :: i <= j && j < len(path) ==> path[j].ptr.Offset == tp(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, th - j)
    hint assert [inds] forall j int {path[j]} :: i < j && j < len(path) ==> path[j].index == ix(iV, r, s, th - j)
    hint assert [indn] forall j int {path[j]} :: i < j && j < len(path) ==> path[j].index == ix(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, th - j)
    hint assert [fitp] forall j int {path[j]} :: i < j && j < len(path) ==> bnpos(jH[path[j].node], jSK[arr(jH[path[j].node].Ids)], jSI[arr(jH[path[j].node].Offsets)]) <= 4096
    hint assert [rest] forall j int {path[j]} :: i < j && j < len(path) ==> *path[j].node == jH[path[j].node] && elems(path[j].node.Ids) == jSK[arr(path[j].node.Ids)] && elems(path[j].node.Vectors) == jSV[arr(path[j].node.Vectors)] && elems(path[j].node.Offsets) == jSI[arr(path[j].node.Offsets)]
    hint assert [fits] forall j int {path[j]} :: i < j && j < len(path) ==> bns(path[j].node) <= 4096
    hint assert [memni] bmemn(path[i].node, d) == nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, th - i)
    hint assert [pnodes] forall j int {path[j]} :: i <= j && j < len(path) ==> bpn(path[j].node, t.Width, d, tA)
    hint assert [memnj] forall j int {path[j]} :: i < j && j < len(path) ==> bmemn(path[j].node, d) == nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, th - j)
    hint assert [nodes] forall j int {path[j]} :: i <= j && j < len(path) ==> bpn(path[j].node, t.Width, d, tA) && bmemn(path[j].node, d) == nd(splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d)), r, s, th - j)
    hint set iV = splitn(iV, r, s, th - i + 1, iY, iC, iR, bmemn(path[i].node, d))
