// The vector tree over pages, as a search tree in the sense of 45_tree.spec. The keys are
// the ids; an entry of a leaf stands for a data pointer and the components of a vector.
package btree
// vectors are their components
fn vn(c int) int
fn vx(c, j int) int
hidden fn vsame(a, b int) bool = vn(a) == vn(b) && (forall j int {vx(a, j)} {vx(b, j)} :: 0 <= j && j < vn(a) ==> vx(a, j) == vx(b, j))
lemma vsame_def(a, b int)
  props C11
  noauto
  ensures vsame(a, b) <==> (vn(a) == vn(b) && (forall j int {vx(a, j)} {vx(b, j)} :: 0 <= j && j < vn(a) ==> vx(a, j) == vx(b, j)))
axiom vec_canon: forall a, b int {vsame(a, b)} :: vsame(a, b) ==> a == b
// the vector F[o..o+d]
fn vec(F [int]float32, o, d int) int
axiom vec_n: forall F [int]float32, o, d int {vec(F, o, d)} :: vn(vec(F, o, d)) == d
axiom vec_x: forall F [int]float32, o, d, j int {vx(vec(F, o, d), j)} :: 0 <= j && j < d ==> vx(vec(F, o, d), j) == F[o + j]
// an entry: a data pointer and a vector
fn ent(o, l, c int) int
fn ento(e int) int
fn entl(e int) int
fn entc(e int) int
axiom ent_inj: forall o, l, c int {ent(o, l, c)} :: ento(ent(o, l, c)) == o && entl(ent(o, l, c)) == l && entc(ent(o, l, c)) == c

// node x holds the kn ids at K[ko..] with the vectors at V[vo..], and the cn children at I[io..]
fn pvec(F [int][int]float32, V [int]hnsw.Point, i, d int) int = vec(F[arr(V[i])], sloff(V[i]), d)
hidden fn isbnid(K [int]pointer.ReferencedId, ko, kn int, V [int]hnsw.Point, vo int, F [int][int]float32, d int, I [int]uint64, io, cn int, x int) bool =
  (leaf(x) <==> cn <= 0) && nk(x) == kn && (forall i int {ky(x, i)} {K[ko + i]} :: 0 <= i && i < kn ==> ky(x, i) == K[ko + i].Value)
  && (cn <= 0 ==> forall i int {pl(x, i)} {V[vo + i]} :: 0 <= i && i < kn ==> pl(x, i) == ent(K[ko + i].DataPointer.Offset, K[ko + i].DataPointer.Length, pvec(F, V, vo + i, d)))
  && (cn > 0 ==> forall i int {ch(x, i)} {I[io + i]} :: 0 <= i && i <= kn ==> ch(x, i) == I[io + i])
lemma isbnid_def(K [int]pointer.ReferencedId, ko, kn int, V [int]hnsw.Point, vo int, F [int][int]float32, d int, I [int]uint64, io, cn int, x int)
  props C11
  noauto
  ensures isbnid(K, ko, kn, V, vo, F, d, I, io, cn, x) <==> ((leaf(x) <==> cn <= 0) && nk(x) == kn && (forall i int {ky(x, i)} {K[ko + i]} :: 0 <= i && i < kn ==> ky(x, i) == K[ko + i].Value)
  && (cn <= 0 ==> forall i int {pl(x, i)} {V[vo + i]} :: 0 <= i && i < kn ==> pl(x, i) == ent(K[ko + i].DataPointer.Offset, K[ko + i].DataPointer.Length, pvec(F, V, vo + i, d)))
  && (cn > 0 ==> forall i int {ch(x, i)} {I[io + i]} :: 0 <= i && i <= kn ==> ch(x, i) == I[io + i]))
fn bnid(K [int]pointer.ReferencedId, ko, kn int, V [int]hnsw.Point, vo int, F [int][int]float32, d int, I [int]uint64, io, cn int) int
axiom bnid_is: forall K [int]pointer.ReferencedId, ko, kn int, V [int]hnsw.Point, vo int, F [int][int]float32, d int, I [int]uint64, io, cn int {bnid(K, ko, kn, V, vo, F, d, I, io, cn)} :: kn >= 0 ==> isbnid(K, ko, kn, V, vo, F, d, I, io, cn, bnid(K, ko, kn, V, vo, F, d, I, io, cn))
// the vectors of the node are the same in both
lemma bnid_frame(K [int]pointer.ReferencedId, ko, kn int, V [int]hnsw.Point, vo int, F, G [int][int]float32, d int, I [int]uint64, io, cn int)
  props C11
  noauto
  let x = bnid(K, ko, kn, V, vo, F, d, I, io, cn)
  let y = bnid(K, ko, kn, V, vo, G, d, I, io, cn)
  requires kn >= 0 && (forall i int {V[i]} :: vo <= i && i < vo + kn ==> G[arr(V[i])] == F[arr(V[i])])
  mention x
  mention y
  use isbnid_def(K, ko, kn, V, vo, F, d, I, io, cn, x)
  use isbnid_def(K, ko, kn, V, vo, G, d, I, io, cn, y)
  use same_def(x, y)
  assert (leaf(x) <==> leaf(y)) && nk(x) == nk(y)
  assert forall i int {ky(x, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == ky(y, i)
  assert leaf(x) ==> forall i int {pl(x, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == pl(y, i)
  assert !leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == ch(y, i)
  assert same(x, y)
  ensures x == y

// the node on a page with bytes B, for vectors of dimension d
fn dbid(B Bs, i int) pointer.ReferencedId
axiom dbid_def: forall B Bs, i int {dbid(B, i)} ::
  dbid(B, i).DataPointer.Offset == uv(bsarr(B), 0, 4096, dbk(bsarr(B), 0, 4096, i))
  && dbid(B, i).DataPointer.Length == wrap(uint32, uv(bsarr(B), 0, 4096, b1(bsarr(B), 0, 4096, dbk(bsarr(B), 0, 4096, i))))
  && dbid(B, i).Value == uv(bsarr(B), 0, 4096, b1(bsarr(B), 0, 4096, b1(bsarr(B), 0, 4096, dbk(bsarr(B), 0, 4096, i))))
fn dvec(d int, B Bs, i int) int
axiom dvec_n: forall d int, B Bs, i int {dvec(d, B, i)} :: vn(dvec(d, B, i)) == d
axiom dvec_x: forall d int, B Bs, i, j int {vx(dvec(d, B, i), j)} :: 0 <= j && j < d ==> vx(dvec(d, B, i), j) == le4(bsarr(B), vcell(d, dvb(bsarr(B), 0, 4096), i, j))
fn dbch(B Bs, i int) int = uv(bsarr(B), 0, 4096, dipos(bsarr(B), 0, 4096, dbk(bsarr(B), 0, 4096, dnk(bsarr(B), 0)), i))
hidden fn isbdn(d int, B Bs, x int) bool =
  (leaf(x) <==> dleaf(bsarr(B), 0)) && nk(x) == dnk(bsarr(B), 0) && (forall i int {ky(x, i)} {dbid(B, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == dbid(B, i).Value)
  && (leaf(x) ==> forall i int {pl(x, i)} {dbid(B, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == ent(dbid(B, i).DataPointer.Offset, dbid(B, i).DataPointer.Length, dvec(d, B, i)))
  && (!leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == dbch(B, i))
lemma isbdn_def(d int, B Bs, x int)
  props C11
  noauto
  ensures isbdn(d, B, x) <==> ((leaf(x) <==> dleaf(bsarr(B), 0)) && nk(x) == dnk(bsarr(B), 0) && (forall i int {ky(x, i)} {dbid(B, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == dbid(B, i).Value)
  && (leaf(x) ==> forall i int {pl(x, i)} {dbid(B, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == ent(dbid(B, i).DataPointer.Offset, dbid(B, i).DataPointer.Length, dvec(d, B, i)))
  && (!leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == dbch(B, i)))
fn bdn(d int, B Bs) int
axiom bdn_is: forall d int, B Bs {bdn(d, B)} :: isbdn(d, B, bdn(d, B))
// the nodes on the pages of the store
fn bmap(D [int]int, d int) [int]int
axiom bmap_def: forall D [int]int, d int, P int {bmap(D, d)[P]} :: bmap(D, d)[P] == bdn(d, page(D, P))
// a page holds a complete node with vectors of dimension d
hidden fn bgood(d int, B Bs) bool = d >= 1 && bdecodable(bsarr(B), 0, 4096) && ddim(bsarr(B), 0, 4096) == d
lemma bgood_def(d int, B Bs)
  props C11
  noauto
  ensures bgood(d, B) <==> (d >= 1 && bdecodable(bsarr(B), 0, 4096) && ddim(bsarr(B), 0, 4096) == d)

// what is decoded from bytes does not depend on where they are
lemma dbk_shift(a [int]int, o, i int)
  props C11
  induction i
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  requires bdecodable(A, 0, 4096) && 0 <= i && i <= dnk(A, 0)
  mention dbk(a, o, 4096, i)
  mention dbk(A, 0, 4096, i)
  mention dbk(a, o, 4096, i - 1)
  mention dbk(A, 0, 4096, i - 1)
  let q = dbk(A, 0, 4096, i - 1)
  let q1 = b1(A, 0, 4096, q)
  let q2 = b1(A, 0, 4096, q1)
  assert i > 0 ==> un(A, 0, 4096, q) > 0 && un(A, 0, 4096, q1) > 0 && un(A, 0, 4096, q2) > 0 && b1(A, 0, 4096, q2) <= 4096
  assert i > 0 ==> dbk(a, o, 4096, i - 1) == q && 4 <= q
  assert i > 0 ==> un(A, 0, 4096, q) == un(a, o, 4096, q)
  assert i > 0 ==> un(A, 0, 4096, q1) == un(a, o, 4096, q1)
  assert i > 0 ==> un(A, 0, 4096, q2) == un(a, o, 4096, q2)
  ensures dbk(a, o, 4096, i) == dbk(A, 0, 4096, i)
  ensures 4 <= dbk(A, 0, 4096, i) && dbk(A, 0, 4096, i) <= 4096
lemma id_shift(a [int]int, o, i int)
  props C11
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  requires bdecodable(A, 0, 4096) && 0 <= i && i < dnk(A, 0)
  use dbk_shift(a, o, i)
  let q = dbk(A, 0, 4096, i)
  let q1 = b1(A, 0, 4096, q)
  let q2 = b1(A, 0, 4096, q1)
  assert un(A, 0, 4096, q) > 0 && un(A, 0, 4096, q1) > 0 && un(A, 0, 4096, q2) > 0 && b1(A, 0, 4096, q2) <= 4096
  assert un(A, 0, 4096, q) == un(a, o, 4096, q) && uv(A, 0, 4096, q) == uv(a, o, 4096, q)
  assert un(A, 0, 4096, q1) == un(a, o, 4096, q1) && uv(A, 0, 4096, q1) == uv(a, o, 4096, q1)
  assert un(A, 0, 4096, q2) == un(a, o, 4096, q2) && uv(A, 0, 4096, q2) == uv(a, o, 4096, q2)
  ensures [off] uv(a, o, 4096, dbk(a, o, 4096, i)) == uv(A, 0, 4096, q)
  ensures [len] uv(a, o, 4096, b1(a, o, 4096, dbk(a, o, 4096, i))) == uv(A, 0, 4096, q1)
  ensures [val] uv(a, o, 4096, b1(a, o, 4096, b1(a, o, 4096, dbk(a, o, 4096, i)))) == uv(A, 0, 4096, q2)
  ensures [wf] un(a, o, 4096, dbk(a, o, 4096, i)) > 0 && un(a, o, 4096, b1(a, o, 4096, dbk(a, o, 4096, i))) > 0 && un(a, o, 4096, b1(a, o, 4096, b1(a, o, 4096, dbk(a, o, 4096, i)))) > 0
     && b1(a, o, 4096, b1(a, o, 4096, b1(a, o, 4096, dbk(a, o, 4096, i)))) <= 4096
lemma dim_shift(a [int]int, o int)
  props C11
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  requires bdecodable(A, 0, 4096)
  use head_shift(a, o)
  use dbk_shift(a, o, dnk(A, 0))
  let kb = dbk(A, 0, 4096, dnk(A, 0))
  use di_shift(a, o, kb, dleaf(A, 0) ? 0 : dnk(A, 0) + 1)
  let q = dbend(A, 0, 4096)
  mention dipos(A, 0, 4096, kb, 0)
  mention dipos(a, o, 4096, kb, 0)
  assert dbend(a, o, 4096) == q && 0 <= q && q <= 4096
  assert un(A, 0, 4096, q) == un(a, o, 4096, q) && uv(A, 0, 4096, q) == uv(a, o, 4096, q)
  ensures [end] dbend(a, o, 4096) == dbend(A, 0, 4096)
  ensures [dim] ddim(a, o, 4096) == ddim(A, 0, 4096)
  ensures [un] un(a, o, 4096, dbend(a, o, 4096)) == un(A, 0, 4096, dbend(A, 0, 4096))
  ensures [vb] dvb(a, o, 4096) == dvb(A, 0, 4096)
// a good page can be decoded where it lies
lemma bread_pre(a [int]int, o, d int)
  props C11
  noauto
  let B = mkbs(a, o, 4096)
  let A = bsarr(B)
  let kb = dbk(A, 0, 4096, dnk(A, 0))
  requires bgood(d, B)
  use bgood_def(d, B)
  use head_shift(a, o)
  use dbk_shift(a, o, dnk(A, 0))
  use dim_shift(a, o)
  use forall i int {dbk(a, o, 4096, i)} :: id_shift(a, o, i)
  use forall i int {dipos(a, o, 4096, kb, i)} :: child_shift(a, o, kb, dnk(A, 0) + 1, i)
  ensures [head] dnk(a, o) > 0 && dnk(a, o) < 1000000000
  ensures [ids] forall i int {dbk(a, o, 4096, i)} :: 0 <= i && i < dnk(a, o) ==>
     un(a, o, 4096, dbk(a, o, 4096, i)) > 0 && un(a, o, 4096, b1(a, o, 4096, dbk(a, o, 4096, i))) > 0 && un(a, o, 4096, b1(a, o, 4096, b1(a, o, 4096, dbk(a, o, 4096, i)))) > 0
     && b1(a, o, 4096, b1(a, o, 4096, b1(a, o, 4096, dbk(a, o, 4096, i)))) <= 4096
  ensures [inner] !dleaf(a, o) ==> wfi(a, o, 4096, dbk(a, o, 4096, dnk(a, o)), dnk(a, o) + 1)
  ensures [all] bdecodable(a, o, 4096)
  ensures [dim] ddim(a, o, 4096) == d && d >= 1
// what the encoder relies on
fn idok(v pointer.ReferencedId) bool = 0 <= v.DataPointer.Offset && v.DataPointer.Offset < 18446744073709551616 && 0 <= v.DataPointer.Length && v.DataPointer.Length < 4294967296
  && 0 <= v.Value && v.Value < 18446744073709551616
hidden fn idsok(K [int]pointer.ReferencedId, ko, kn int) bool = forall i int {K[i]} :: ko <= i && i < ko + kn ==> idok(K[i])
lemma idsok_def(K [int]pointer.ReferencedId, ko, kn int)
  props C11
  noauto
  ensures idsok(K, ko, kn) <==> (forall i int {K[i]} :: ko <= i && i < ko + kn ==> idok(K[i]))
// the fields of id i are those of dbid
lemma dbid_id(a [int]int, o, d int, K1 [int]pointer.ReferencedId, ko, i int)
  props C11
  noauto
  let B = mkbs(a, o, 4096)
  requires bgood(d, B) && 0 <= i && i < dnk(bsarr(B), 0) && did(a, o, 4096, K1, ko, i)
  use bgood_def(d, B)
  use id_shift(a, o, i)
  mention dbid(B, i)
  ensures [id] K1[ko + i] == dbid(B, i)
  ensures [ok] idok(K1[ko + i])
lemma dbch_ptr(a [int]int, o, d int, I1 [int]uint64, io, i int)
  props C11
  noauto
  let B = mkbs(a, o, 4096)
  let n = dnk(bsarr(B), 0)
  requires bgood(d, B) && 0 <= i && i <= n && !dleaf(a, o) && dchild(a, o, 4096, dbk(a, o, 4096, n), I1, io, i)
  use bgood_def(d, B)
  use head_shift(a, o)
  use dbk_shift(a, o, n)
  use child_shift(a, o, dbk(a, o, 4096, n), n + 1, i)
  ensures I1[io + i] == dbch(B, i)
lemma le4_shift(a [int]int, o, p int)
  props C11
  noauto
  let A = bsarr(mkbs(a, o, 4096))
  let B = mkbs(a, o, 4096)
  requires 0 <= p && p + 4 <= 4096
  mention B[p]
  mention B[p + 1]
  mention B[p + 2]
  mention B[p + 3]
  mention A[p]
  mention A[p + 1]
  mention A[p + 2]
  mention A[p + 3]
  ensures le4(A, p) == le4(a, o + p)
lemma bk_lo4(A [int]int, i int)
  props C11
  induction i
  noauto
  requires bdecodable(A, 0, 4096) && 0 <= i && i <= dnk(A, 0)
  mention dbk(A, 0, 4096, i)
  mention dbk(A, 0, 4096, i - 1)
  ensures dbk(A, 0, 4096, i) >= 4
lemma bi_lo0(A [int]int, b, i int)
  props C11
  induction i
  noauto
  requires 0 <= b && wfi(A, 0, 4096, b, i) && 0 <= i
  mention dipos(A, 0, 4096, b, i)
  mention dipos(A, 0, 4096, b, i - 1)
  ensures dipos(A, 0, 4096, b, i) >= b
lemma bvb_lo(A [int]int)
  props C11
  noauto
  requires bdecodable(A, 0, 4096)
  use bk_lo4(A, dnk(A, 0))
  use bi_lo0(A, dbk(A, 0, 4096, dnk(A, 0)), dleaf(A, 0) ? 0 : dnk(A, 0) + 1)
  ensures dvb(A, 0, 4096) >= 0
lemma dvec_vec(a [int]int, o, d int, F [int]float32, fo, i int)
  props C11
  noauto
  let B = mkbs(a, o, 4096)
  let A = bsarr(B)
  let VB = dvb(a, o, 4096)
  requires bgood(d, B) && 0 <= i && i < dnk(A, 0)
  requires forall j int {F[j]} :: fo <= j && j < fo + d ==> F[j] == le4(a, o + vcell(d, VB, i, j - fo))
  use bgood_def(d, B)
  use dim_shift(a, o)
  use vpos_mono(d, VB, i, dnk(A, 0))
  mention vpos(d, VB, i)
  mention vpos(d, VB, dnk(A, 0))
  assert vpos(d, VB, i) + 4 * d <= 4096
  use vpos_lo(d, VB, i)
  use bvb_lo(A)
  assert forall j int {vcell(d, VB, i, j)} :: 0 <= j && j < d ==> 0 <= vcell(d, VB, i, j) && vcell(d, VB, i, j) + 4 <= 4096
  let x = vec(F, fo, d)
  let y = dvec(d, B, i)
  mention x
  mention y
  use forall p int {le4(A, p)} :: le4_shift(a, o, p)
  assert forall j int {vx(y, j)} :: 0 <= j && j < d ==> vx(y, j) == le4(a, o + vcell(d, VB, i, j))
  assert forall j int {vx(x, j)} :: 0 <= j && j < d ==> vx(x, j) == F[fo + j]
  assert forall j int {vx(x, j)} :: 0 <= j && j < d ==> vx(x, j) == vx(y, j)
  use vsame_def(x, y)
  assert vsame(x, y)
  ensures x == y
fn bseq(n BTreeNode) bool = len(n.Vectors) == len(n.Ids) && (len(n.Offsets) == 0 || len(n.Offsets) == len(n.Ids) + 1)
fn bx(n BTreeNode, K [int]pointer.ReferencedId, V [int]hnsw.Point, F [int][int]float32, I [int]uint64, d int) int =
  bnid(K, sloff(n.Ids), len(n.Ids), V, sloff(n.Vectors), F, d, I, sloff(n.Offsets), len(n.Offsets))
hidden fn bcomps(a [int]int, o, d, VB int, V [int]hnsw.Point, vo int, F [int][int]float32, n int) bool =
  forall i, j int {F[arr(V[i])][j]} :: vo <= i && i < vo + n && sloff(V[i]) <= j && j < sloff(V[i]) + d ==> F[arr(V[i])][j] == le4(a, o + vcell(d, VB, i - vo, j - sloff(V[i])))
lemma bcomps_def(a [int]int, o, d, VB int, V [int]hnsw.Point, vo int, F [int][int]float32, n int)
  props C11
  noauto
  ensures bcomps(a, o, d, VB, V, vo, F, n) <==> (forall i, j int {F[arr(V[i])][j]} :: vo <= i && i < vo + n && sloff(V[i]) <= j && j < sloff(V[i]) + d ==> F[arr(V[i])][j] == le4(a, o + vcell(d, VB, i - vo, j - sloff(V[i]))))
lemma dvec_pvec(a [int]int, o, d int, V [int]hnsw.Point, vo int, F [int][int]float32, n, i int)
  props C11
  noauto
  let B = mkbs(a, o, 4096)
  requires bgood(d, B) && 0 <= i && i < n && n == dnk(bsarr(B), 0) && bcomps(a, o, d, dvb(a, o, 4096), V, vo, F, n)
  use bcomps_def(a, o, d, dvb(a, o, 4096), V, vo, F, n)
  use dvec_vec(a, o, d, F[arr(V[vo + i])], sloff(V[vo + i]), i)
  ensures pvec(F, V, vo + i, d) == dvec(d, B, i)
lemma bread_post(a [int]int, o, d int, n BTreeNode, K1 [int]pointer.ReferencedId, V1 [int]hnsw.Point, F [int][int]float32, I1 [int]uint64)
  props C11
  noauto
  let B = mkbs(a, o, 4096)
  let x = bx(n, K1, V1, F, I1, d)
  let y = bdn(d, B)
  let VB = dvb(a, o, 4096)
  requires bgood(d, B) && len(n.Ids) == dnk(a, o) && len(n.Vectors) == dnk(a, o) && len(n.Offsets) == (dleaf(a, o) ? 0 : dnk(a, o) + 1)
  requires forall i int {K1[sloff(n.Ids) + i]} :: 0 <= i && i < len(n.Ids) ==> did(a, o, 4096, K1, sloff(n.Ids), i)
  requires dchildren(a, o, 4096, dbk(a, o, 4096, dnk(a, o)), I1, sloff(n.Offsets), len(n.Offsets))
  requires bcomps(a, o, d, VB, V1, sloff(n.Vectors), F, len(n.Vectors))
  use bgood_def(d, B)
  use head_shift(a, o)
  use idsok_def(K1, sloff(n.Ids), len(n.Ids))
  mention x
  mention y
  assert len(n.Ids) > 0
  use isbnid_def(K1, sloff(n.Ids), len(n.Ids), V1, sloff(n.Vectors), F, d, I1, sloff(n.Offsets), len(n.Offsets), x)
  use isbdn_def(d, B, y)
  use forall i int {K1[sloff(n.Ids) + i]} :: dbid_id(a, o, d, K1, sloff(n.Ids), i)
  use forall i int {V1[sloff(n.Vectors) + i]} :: dvec_pvec(a, o, d, V1, sloff(n.Vectors), F, len(n.Vectors), i)
  use forall i int {I1[sloff(n.Offsets) + i]} :: dbch_ptr(a, o, d, I1, sloff(n.Offsets), i)
  assert !dleaf(a, o) ==> forall i int {I1[sloff(n.Offsets) + i]} :: 0 <= i && i <= dnk(a, o) ==> dchild(a, o, 4096, dbk(a, o, 4096, dnk(bsarr(B), 0)), I1, sloff(n.Offsets), i)
  assert !dleaf(a, o) ==> forall i int {I1[sloff(n.Offsets) + i]} :: 0 <= i && i <= dnk(a, o) ==> I1[sloff(n.Offsets) + i] == dbch(B, i)
  use same_def(x, y)
  assert (leaf(x) <==> leaf(y)) && nk(x) == nk(y)
  assert forall i int {ky(x, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == ky(y, i)
  assert leaf(x) ==> forall i int {pl(x, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == pl(y, i)
  assert !leaf(x) ==> forall i int {ch(x, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == ch(y, i)
  assert same(x, y)
  ensures [node] x == y
  ensures [ids] idsok(K1, sloff(n.Ids), len(n.Ids))
// ---- a node read from a page fits into a page ----
lemma bfit(a [int]int, o int, K [int]pointer.ReferencedId, ko, i int)
  props C11
  induction i
  noauto
  requires bdecodable(a, o, 4096) && 0 <= i && i <= dnk(a, o)
  requires forall j int {K[ko + j]} :: 0 <= j && j < dnk(a, o) ==> did(a, o, 4096, K, ko, j) && idok(K[ko + j])
  mention dbk(a, o, 4096, i)
  mention dbk(a, o, 4096, i - 1)
  mention bkpos(K, ko, i)
  mention bkpos(K, ko, i - 1)
  mention K[ko + (i - 1)]
  let q = dbk(a, o, 4096, i - 1)
  let q1 = b1(a, o, 4096, q)
  let q2 = b1(a, o, 4096, q1)
  assert i > 0 ==> un(a, o, 4096, q) > 0 && un(a, o, 4096, q1) > 0 && un(a, o, 4096, q2) > 0 && b1(a, o, 4096, q2) <= 4096
  assert i > 0 ==> uvl(uv(a, o, 4096, q)) <= un(a, o, 4096, q)
  assert i > 0 ==> uvl(uv(a, o, 4096, q1)) <= un(a, o, 4096, q1)
  assert i > 0 ==> uvl(uv(a, o, 4096, q2)) <= un(a, o, 4096, q2)
  assert i > 0 ==> uvl(wrap(uint32, uv(a, o, 4096, q1))) <= uvl(uv(a, o, 4096, q1))
  assert i > 0 ==> bkpos(K, ko, i) <= bkpos(K, ko, i - 1) + un(a, o, 4096, q) + un(a, o, 4096, q1) + un(a, o, 4096, q2)
  ensures bkpos(K, ko, i) <= dbk(a, o, 4096, i) && dbk(a, o, 4096, i) <= 4096
lemma vpos_base(d, b, c, i int)
  props C11
  induction i
  noauto
  requires i >= 0
  mention vpos(d, b, i)
  mention vpos(d, c, i)
  mention vpos(d, b, i - 1)
  mention vpos(d, c, i - 1)
  ensures vpos(d, b, i) - b == vpos(d, c, i) - c
lemma bread_fits(a [int]int, o, d int, n BTreeNode, K1 [int]pointer.ReferencedId, I1 [int]uint64)
  props C11
  noauto
  let B = mkbs(a, o, 4096)
  let kb = dbk(a, o, 4096, dnk(a, o))
  let k2 = bkpos(K1, sloff(n.Ids), len(n.Ids))
  requires bgood(d, B) && len(n.Ids) == dnk(a, o) && len(n.Vectors) == dnk(a, o) && n.VectorDim == d && len(n.Offsets) == (dleaf(a, o) ? 0 : dnk(a, o) + 1)
  requires forall i int {K1[sloff(n.Ids) + i]} :: 0 <= i && i < len(n.Ids) ==> did(a, o, 4096, K1, sloff(n.Ids), i)
  requires dchildren(a, o, 4096, kb, I1, sloff(n.Offsets), len(n.Offsets))
  use bread_pre(a, o, d)
  use head_shift(a, o)
  use bgood_def(d, B)
  use forall i int {K1[sloff(n.Ids) + i]} :: dbid_id(a, o, d, K1, sloff(n.Ids), i)
  use bfit(a, o, K1, sloff(n.Ids), dnk(a, o))
  assert k2 <= kb && kb <= 4096
  use ifit(a, o, kb, k2, I1, sloff(n.Offsets), len(n.Offsets))
  mention ipos(I1, sloff(n.Offsets), k2, len(n.Offsets))
  assert bopos(n, K1, I1) <= dbend(a, o, 4096)
  assert uvl(d) <= un(a, o, 4096, dbend(a, o, 4096))
  assert bvpos(n, K1, I1) <= dvb(a, o, 4096)
  use vpos_base(d, bvpos(n, K1, I1), dvb(a, o, 4096), dnk(a, o))
  use chsok_def(I1, sloff(n.Offsets), len(n.Offsets))
  ensures bnpos(n, K1, I1) <= 4096
  ensures [children] chsok(I1, sloff(n.Offsets), len(n.Offsets))
// ---- nodes in memory ----
fn bmem(HN [int]BTreeNode, SK [int][int]pointer.ReferencedId, SV [int][int]hnsw.Point, SF [int][int]float32, SI [int][int]uint64, d, p int) int =
  bx(HN[p], SK[arr(HN[p].Ids)], SV[arr(HN[p].Vectors)], SF, SI[arr(HN[p].Offsets)], d)
// the vectors of the node have d components and exist
hidden fn vecsok(V [int]hnsw.Point, vo, n, d, A int) bool = forall i int {V[i]} :: vo <= i && i < vo + n ==> len(V[i]) == d && arr(V[i]) < A
lemma vecsok_def(V [int]hnsw.Point, vo, n, d, A int)
  props C11
  noauto
  ensures vecsok(V, vo, n, d, A) <==> (forall i int {V[i]} :: vo <= i && i < vo + n ==> len(V[i]) == d && arr(V[i]) < A)
fn bnodein(HN [int]BTreeNode, SK [int][int]pointer.ReferencedId, SV [int][int]hnsw.Point, SI [int][int]uint64, p, w, d, A int) bool =
  p != 0 && HN[p].Width == w && HN[p].VectorDim == d && 1 <= d && d < 1073741824 && len(HN[p].Ids) > 0 && bseq(HN[p])
  && idsok(SK[arr(HN[p].Ids)], sloff(HN[p].Ids), len(HN[p].Ids)) && vecsok(SV[arr(HN[p].Vectors)], sloff(HN[p].Vectors), len(HN[p].Vectors), d, A)
  && chsok(SI[arr(HN[p].Offsets)], sloff(HN[p].Offsets), len(HN[p].Offsets))
fn bfits(HN [int]BTreeNode, SK [int][int]pointer.ReferencedId, SI [int][int]uint64, p int) bool =
  bnpos(HN[p], SK[arr(HN[p].Ids)], SI[arr(HN[p].Offsets)]) <= 4096

func (*BTree).readNode(t, offset) (n *BTreeNode, err error)
  props C11, C19
  let B = page(disk, offset)
  let d = t.VectorDim
  requires t.PageFile != nil && offset + 4096 <= size && size <= 4611686018427387904
  requires bgood(t.VectorDim, B)
  modifies pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [shape] err == nil ==> fresh(n) && bnodein(H(BTreeNode), S(pointer.ReferencedId), S(hnsw.Point), S(uint64), n, t.Width, d, alloc)
  ensures [node] err == nil ==> bmem(H(BTreeNode), S(pointer.ReferencedId), S(hnsw.Point), S(float32), S(uint64), d, n) == bdn(d, B)
  ensures [fits] err == nil ==> bfits(H(BTreeNode), S(pointer.ReferencedId), S(uint64), n)
  ensures [fresh] err == nil ==> fresh(n.Ids) && fresh(n.Vectors) && (len(n.Offsets) > 0 ==> fresh(n.Offsets))
  ensures [alive] err == nil ==> alive(n) && alive(n.Ids) && alive(n.Vectors) && alive(n.Offsets)
  at beforecall UnmarshalBinary
    assert bs(buf) == B
  at beforecall UnmarshalBinary
    use bread_pre(elems(buf), buf.off, t.VectorDim)
  at aftercall UnmarshalBinary
    use bcomps_def(elems(buf), buf.off, t.VectorDim, dvb(elems(buf), buf.off, 4096), elems(node.Vectors), sloff(node.Vectors), S(float32), len(node.Vectors))
  at aftercall UnmarshalBinary
    assert [comps] bcomps(elems(buf), buf.off, t.VectorDim, dvb(elems(buf), buf.off, 4096), elems(node.Vectors), sloff(node.Vectors), S(float32), len(node.Vectors))
  at aftercall UnmarshalBinary
    use vecsok_def(elems(node.Vectors), sloff(node.Vectors), len(node.Vectors), t.VectorDim, alloc)
  at aftercall UnmarshalBinary
    use bread_post(elems(buf), buf.off, t.VectorDim, *node, elems(node.Ids), elems(node.Vectors), S(float32), elems(node.Offsets))
  at aftercall UnmarshalBinary
    use bread_fits(elems(buf), buf.off, t.VectorDim, *node, elems(node.Ids), elems(node.Offsets))
lemma vecsok_more(V [int]hnsw.Point, vo, n, d, A, B int)
  props C11
  noauto
  requires vecsok(V, vo, n, d, A) && A <= B
  use vecsok_def(V, vo, n, d, A)
  use vecsok_def(V, vo, n, d, B)
  ensures vecsok(V, vo, n, d, B)
// the vectors that exist at A are kept
lemma bx_frame(n BTreeNode, K [int]pointer.ReferencedId, V [int]hnsw.Point, F, G [int][int]float32, I [int]uint64, d, A int)
  props C11
  noauto
  requires len(n.Ids) >= 0 && len(n.Vectors) == len(n.Ids) && vecsok(V, sloff(n.Vectors), len(n.Vectors), d, A) && (forall q int {G[q]} :: q < A ==> G[q] == F[q])
  use vecsok_def(V, sloff(n.Vectors), len(n.Vectors), d, A)
  use bnid_frame(K, sloff(n.Ids), len(n.Ids), V, sloff(n.Vectors), F, G, d, I, sloff(n.Offsets), len(n.Offsets))
  ensures bx(n, K, V, F, I, d) == bx(n, K, V, G, I, d)
lemma bmem_head(n BTreeNode, K [int]pointer.ReferencedId, V [int]hnsw.Point, F [int][int]float32, I [int]uint64, d int)
  props C11
  noauto
  let x = bx(n, K, V, F, I, d)
  requires len(n.Ids) >= 0
  mention x
  use isbnid_def(K, sloff(n.Ids), len(n.Ids), V, sloff(n.Vectors), F, d, I, sloff(n.Offsets), len(n.Offsets), x)
  ensures (leaf(x) <==> len(n.Offsets) <= 0) && nk(x) == len(n.Ids)
lemma bmem_child(n BTreeNode, K [int]pointer.ReferencedId, V [int]hnsw.Point, F [int][int]float32, I [int]uint64, d, i int)
  props C11
  noauto
  let x = bx(n, K, V, F, I, d)
  requires len(n.Ids) >= 0 && 0 <= i && i <= len(n.Ids) && len(n.Offsets) > 0
  mention x
  use isbnid_def(K, sloff(n.Ids), len(n.Ids), V, sloff(n.Vectors), F, d, I, sloff(n.Offsets), len(n.Offsets), x)
  mention ch(x, i)
  ensures ch(x, i) == I[sloff(n.Offsets) + i]
lemma bmem_entry(n BTreeNode, K [int]pointer.ReferencedId, V [int]hnsw.Point, F [int][int]float32, I [int]uint64, d, i int)
  props C11
  noauto
  let x = bx(n, K, V, F, I, d)
  requires 0 <= i && i < len(n.Ids)
  mention x
  use isbnid_def(K, sloff(n.Ids), len(n.Ids), V, sloff(n.Vectors), F, d, I, sloff(n.Offsets), len(n.Offsets), x)
  mention ky(x, i)
  mention pl(x, i)
  mention V[sloff(n.Vectors) + i]
  ensures [key] ky(x, i) == K[sloff(n.Ids) + i].Value
  ensures [value] len(n.Offsets) <= 0 ==> pl(x, i) == ent(K[sloff(n.Ids) + i].DataPointer.Offset, K[sloff(n.Ids) + i].DataPointer.Length, pvec(F, V, sloff(n.Vectors) + i, d))
// ---- searching a node ----
extern slices.BinarySearchFunc<pointer.CompareReferencedIds>(x, target, cmp) (place int, found bool)
  requires forall a, b int {x[a], x[b]} :: 0 <= a && a < b && b < len(x) ==> x[a].Value < x[b].Value
  ensures 0 <= place && place <= len(x)
  ensures forall a int {x[a]} :: 0 <= a && a < place ==> x[a].Value < target.Value
  ensures forall a int {x[a]} :: place <= a && a < len(x) ==> x[a].Value >= target.Value
  ensures found <==> place < len(x) && x[place].Value == target.Value
lemma bsearch_pre(n BTreeNode, K [int]pointer.ReferencedId, V [int]hnsw.Point, F [int][int]float32, I [int]uint64, d int)
  props C11
  noauto
  let x = bx(n, K, V, F, I, d)
  let ko = sloff(n.Ids)
  requires len(n.Ids) >= 0 && srt(x)
  mention x
  use isbnid_def(K, sloff(n.Ids), len(n.Ids), V, sloff(n.Vectors), F, d, I, sloff(n.Offsets), len(n.Offsets), x)
  use srt_def(x)
  ensures forall a, b int {K[a], K[b]} :: ko <= a && a < b && b < ko + len(n.Ids) ==> K[a].Value < K[b].Value
lemma bsearch_post(n BTreeNode, K [int]pointer.ReferencedId, V [int]hnsw.Point, F [int][int]float32, I [int]uint64, d, v, i int)
  props C11
  noauto
  let x = bx(n, K, V, F, I, d)
  let ko = sloff(n.Ids)
  let kn = len(n.Ids)
  requires kn >= 0 && srt(x)
  requires 0 <= i && i <= kn && (forall a int {K[a]} :: ko <= a && a < ko + i ==> K[a].Value < v) && (forall a int {K[a]} :: ko + i <= a && a < ko + kn ==> K[a].Value >= v)
  mention x
  use isbnid_def(K, sloff(n.Ids), len(n.Ids), V, sloff(n.Vectors), F, d, I, sloff(n.Offsets), len(n.Offsets), x)
  mention ky(x, i - 1)
  mention ky(x, i)
  use srt_def(x)
  use idx_unique(x, v - 1, i)
  use idx_unique(x, v, i)
  use idx_unique(x, v, i + 1)
  mention ky(x, i + 1)
  mention K[ko + i]
  ensures [index] i == below(x, v)
  ensures [found] i < kn ==> (K[ko + i].Value == v <==> ky(x, i) == v)
  ensures [right] idx(x, v) == (i < kn && K[ko + i].Value == v ? i + 1 : i)

// ---- the tree ----
fn bpageok(D [int]int, n int, U [int]bool, d int, X [int]bool, P int) bool = bgood(d, page(D, P)) && P + 4096 <= n && U[P] && !X[P]
hidden fn bpages(D [int]int, n int, U [int]bool, d int, X [int]bool, r, h int) bool = forall k, l int {tp(bmap(D, d), r, k, l)} :: lev(l, h) ==> bpageok(D, n, U, d, X, tp(bmap(D, d), r, k, l))
lemma bpages_def(D [int]int, n int, U [int]bool, d int, X [int]bool, r, h int)
  props C11
  noauto
  ensures bpages(D, n, U, d, X, r, h) <==> (forall k, l int {tp(bmap(D, d), r, k, l)} :: lev(l, h) ==> bpageok(D, n, U, d, X, tp(bmap(D, d), r, k, l)))
lemma bpages_at(D [int]int, n int, U [int]bool, d int, X [int]bool, r, h, k, l int)
  props C11
  noauto
  requires bpages(D, n, U, d, X, r, h) && lev(l, h)
  use bpages_def(D, n, U, d, X, r, h)
  mention tp(bmap(D, d), r, k, l)
  ensures bpageok(D, n, U, d, X, tp(bmap(D, d), r, k, l))
fn btreeok(D [int]int, n int, U [int]bool, d int, X [int]bool, r, h int) bool = n <= 4611686018427387904 && W(bmap(D, d), r, h) && bpages(D, n, U, d, X, r, h)
fn btenv(t BTree) bool = t.PageFile != nil && t.MetaPage != nil && 1 <= t.VectorDim && t.VectorDim < 1073741824
fn btroot(D [int]int, t BTree) int = le8(D, mpos(t.MetaPage))
fn btnone(D [int]int, t BTree) bool = le4(D, mpos(t.MetaPage) + 8) == 0

func (*BTree).root(t) (n *BTreeNode, mp pointer.MemoryPointer, err error)
  props C11, C19
  let r = btroot(disk, *t)
  let d = t.VectorDim
  let N = bmap(disk, t.VectorDim)
  requires btenv(*t) && (btnone(disk, *t) || btreeok(disk, size, used, d, oth, r, th))
  modifies pos, iofail
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [empty] err == nil ==> (n == 0 <==> btnone(disk, *t))
  ensures [offset] err == nil ==> mp.Offset == r
  ensures [shape] err == nil && n != 0 ==> fresh(n) && bnodein(H(BTreeNode), S(pointer.ReferencedId), S(hnsw.Point), S(uint64), n, t.Width, d, alloc)
  ensures [node] err == nil && n != 0 ==> bmem(H(BTreeNode), S(pointer.ReferencedId), S(hnsw.Point), S(float32), S(uint64), d, n) == N[r]
  ensures [fits] err == nil && n != 0 ==> bfits(H(BTreeNode), S(pointer.ReferencedId), S(uint64), n)
  ensures [fresh] err == nil && n != 0 ==> fresh(n.Ids) && fresh(n.Vectors) && (len(n.Offsets) > 0 ==> fresh(n.Offsets))
  ensures [alive] err == nil && n != 0 ==> alive(n) && alive(n.Ids) && alive(n.Vectors) && alive(n.Offsets)
  at beforecall readNode
    use W_height(N, r, th)
  at beforecall readNode
    use bpages_at(disk, size, used, d, oth, r, th, 0, 0)
  at beforecall readNode
    use W_node(N, r, th, 0, 0)
  at beforecall readNode
    use at_top(N, r, 0, 0)

ghost tA int     // what exists when the rest of the way has been read
// a step of the way down for key k: the node at level l
fn bonpath(HN [int]BTreeNode, SK [int][int]pointer.ReferencedId, SV [int][int]hnsw.Point, SF [int][int]float32, SI [int][int]uint64, w, d, A int, N [int]int, r, k, l int, q int) bool =
  bnodein(HN, SK, SV, SI, q, w, d, A) && bmem(HN, SK, SV, SF, SI, d, q) == nd(N, r, k, l)
func (*BTree).traverse(t, key, node, ptr) (path, err error)
  props C11, C19
  merge
  let r = btroot(disk, *t)
  let d = t.VectorDim
  let N = bmap(disk, t.VectorDim)
  let k = key.Value
  let l = tl
  let A0 = alloc
  requires btenv(*t) && btreeok(disk, size, used, d, oth, r, th) && lev(tl, th)
  requires bonpath(H(BTreeNode), S(pointer.ReferencedId), S(hnsw.Point), S(float32), S(uint64), t.Width, d, alloc, N, r, k, tl, node) && ptr.Offset == tp(N, r, k, tl)
  requires bfits(H(BTreeNode), S(pointer.ReferencedId), S(uint64), node)
  requires alive(node.Ids) && alive(node.Vectors) && alive(node.Offsets)
  modifies pos, iofail, tl, tA
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures tl == old(tl)
  ensures [bound] A0 <= tA && tA <= alloc
  ensures [length] err == nil ==> len(path) == th - tl + 1 && fresh(path)
  ensures [last] err == nil ==> path[th - tl].node == node
  ensures [nodes] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> bonpath(H(BTreeNode), S(pointer.ReferencedId), S(hnsw.Point), S(float32), S(uint64), t.Width, d, tA, N, r, k, th - i, path[i].node)
  ensures [pages] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> path[i].ptr.Offset == tp(N, r, k, th - i)
  ensures [index] err == nil ==> forall i int {path[i]} :: 0 < i && i < len(path) ==> path[i].index == ix(N, r, k, th - i)
  ensures [leaf] err == nil ==> path[0].index == below(nd(N, r, k, th), k)
  ensures [fresh] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) - 1 ==> fresh(path[i].node)
  ensures [fits] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> bfits(H(BTreeNode), S(pointer.ReferencedId), S(uint64), path[i].node)
  ensures [freshkeys] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) - 1 ==> fresh(path[i].node.Ids) && fresh(path[i].node.Vectors) && (len(path[i].node.Offsets) > 0 ==> fresh(path[i].node.Offsets))
  ensures [inner] err == nil ==> forall i int {path[i]} :: 0 < i && i < len(path) ==> len(path[i].node.Offsets) > 0 && cap(path[i].node.Offsets) > 0
  ensures [leafnode] err == nil ==> len(path[0].node.Offsets) == 0
  ensures [caps] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> cap(path[i].node.Ids) > 0 && cap(path[i].node.Vectors) > 0
  ensures [arrays] err == nil ==> forall i, j int {path[i], path[j]} :: 0 <= i && i < j && j < len(path) ==> arr(path[i].node.Ids) != arr(path[j].node.Ids) && arr(path[i].node.Vectors) != arr(path[j].node.Vectors) && (i > 0 ==> arr(path[i].node.Offsets) != arr(path[j].node.Offsets))
  ensures [distinct] err == nil ==> forall i, j int {path[i], path[j]} :: 0 <= i && i < j && j < len(path) ==> path[i].node != path[j].node
  ensures [alive] err == nil ==> forall i int {path[i]} :: 0 <= i && i < len(path) ==> alive(path[i].node) && alive(path[i].node.Ids) && alive(path[i].node.Vectors) && alive(path[i].node.Offsets)
  at return
    set tl = old(tl)
  at entry
    use W_node(N, r, th, k, tl)
  at entry
    use bmem_head(*node, elems(node.Ids), elems(node.Vectors), S(float32), elems(node.Offsets), d)
  at beforecall readNode
    use bmem_child(*node, elems(node.Ids), elems(node.Vectors), S(float32), elems(node.Offsets), d, index)
  at beforecall readNode
    use at_step(N, r, k, tl + 1)
  at beforecall readNode
    use bpages_at(disk, size, used, d, oth, r, th, k, tl + 1)
  at beforecall readNode
    use W_node(N, r, th, k, tl + 1)
  at beforecall traverse
    set tl = tl + 1
  at aftercall traverse
    use bx_frame(*node, elems(node.Ids), elems(node.Vectors), old(S(float32)), S(float32), elems(node.Offsets), d, A0)
  at entry
    set tA = alloc
  at aftercall traverse
    use vecsok_more(elems(node.Vectors), sloff(node.Vectors), len(node.Vectors), d, A0, tA)
  at beforecall BinarySearchFunc
    use bsearch_pre(*node, elems(node.Ids), elems(node.Vectors), S(float32), elems(node.Offsets), d)
  at aftercall BinarySearchFunc
    use bsearch_post(*node, elems(node.Ids), elems(node.Vectors), S(float32), elems(node.Offsets), d, key.Value, $place)

func (*BTree).Find(t, key) (id pointer.ReferencedId, v hnsw.Point, err error)
  props C11, C19
  let r = btroot(disk, *t)
  let d = t.VectorDim
  let N = bmap(disk, t.VectorDim)
  let k = key.Value
  requires btenv(*t) && (btnone(disk, *t) || btreeok(disk, size, used, d, oth, r, th))
  modifies pos, iofail, tl, tA
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [found] err == nil && !btnone(disk, *t) ==> has(N, r, th, k) && id.Value == k && len(v) == d
  ensures [value] err == nil && !btnone(disk, *t) ==> val(N, r, th, k) == ent(id.DataPointer.Offset, id.DataPointer.Length, vec(elems(v), sloff(v), d))
  ensures [empty] err == nil && btnone(disk, *t) ==> len(v) == 0 && id.Value == 0 && id.DataPointer.Offset == 0 && id.DataPointer.Length == 0
  ensures [absent] !btnone(disk, *t) && !has(N, r, th, k) ==> err != nil
  ensures [failed] err != nil ==> len(v) == 0
  at beforecall traverse
    set tl = 0
  at beforecall traverse
    use W_height(N, r, th)
  at beforecall traverse
    use at_top(N, r, k, 0)
  at beforecall BinarySearchFunc
    use W_node(N, r, th, k, th)
  at beforecall BinarySearchFunc
    use W_height(N, r, th)
  at beforecall BinarySearchFunc
    use bsearch_pre(*path[0].node, elems(path[0].node.Ids), elems(path[0].node.Vectors), S(float32), elems(path[0].node.Offsets), d)
  at beforecall BinarySearchFunc
    use bmem_head(*path[0].node, elems(path[0].node.Ids), elems(path[0].node.Vectors), S(float32), elems(path[0].node.Offsets), d)
  at aftercall BinarySearchFunc
    use bsearch_post(*path[0].node, elems(path[0].node.Ids), elems(path[0].node.Vectors), S(float32), elems(path[0].node.Offsets), d, k, $place)
  at aftercall BinarySearchFunc
    use not_found(nd(N, r, k, th), k, $place)
  at aftercall BinarySearchFunc
    use idx_range(nd(N, r, k, th), k)
  at aftercall BinarySearchFunc
    use bmem_entry(*path[0].node, elems(path[0].node.Ids), elems(path[0].node.Vectors), S(float32), elems(path[0].node.Offsets), d, $place)
  at aftercall BinarySearchFunc
    use vecsok_def(elems(path[0].node.Vectors), sloff(path[0].node.Vectors), len(path[0].node.Vectors), d, tA)
  at aftercall BinarySearchFunc
    mention elems(path[0].node.Vectors)[sloff(path[0].node.Vectors) + $place]
