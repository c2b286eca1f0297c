package btree
// ---- the encoded form of a vector tree node ----
fn bklen(k pointer.ReferencedId) int = uvl(k.DataPointer.Offset) + uvl(k.DataPointer.Length) + uvl(k.Value)
rec bkpos(K [int]pointer.ReferencedId, o, i int) int = i <= 0 ? 4 : bkpos(K, o, i - 1) + bklen(K[o + i - 1])
// start of vector i, and of its component j, with vectors of dimension d from position b on
rec vpos(d, b, i int) int = i <= 0 ? b : vpos(d, b, i - 1) + 4 * d
opaque fn vcell(d, b, i, j int) int = vpos(d, b, i) + 4 * j

fn bopos(n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64) int = ipos(I, sloff(n.Offsets), bkpos(K, sloff(n.Ids), len(n.Ids)), len(n.Offsets))
fn bvpos(n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64) int = bopos(n, K, I) + uvl(n.VectorDim)
fn bnpos(n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64) int = vpos(n.VectorDim, bvpos(n, K, I), len(n.Vectors))

lemma bkpos_mono(K [int]pointer.ReferencedId, o, i, j int)
  props C02
  auto
  induction j
  noauto
  requires 0 <= i && i < j
  pattern bkpos(K, o, i), bkpos(K, o, j)
  let k = K[o + j - 1]
  assert bkpos(K, o, j) == bkpos(K, o, j - 1) + bklen(k) && bklen(k) >= 3
  ensures bkpos(K, o, j) >= bkpos(K, o, i) + bklen(K[o + i]) && bkpos(K, o, i) >= 4
lemma bkpos_lo(K [int]pointer.ReferencedId, o, i int)
  props C02
  auto
  induction i
  pattern bkpos(K, o, i)
  ensures bkpos(K, o, i) >= 4 + 3 * i
lemma vpos_mono(d, b, i, j int)
  props C02
  auto
  induction j
  requires 0 <= i && i < j && d >= 0
  pattern vpos(d, b, i), vpos(d, b, j)
  ensures vpos(d, b, j) >= vpos(d, b, i) + 4 * d
lemma vpos_lo(d, b, i int)
  props C02
  auto
  induction i
  requires d >= 0
  pattern vpos(d, b, i)
  ensures vpos(d, b, i) >= b && (d >= 1 ==> vpos(d, b, i) >= b + 4 * i)
lemma vpos_lin(d, b, i int)
  props C02
  induction i
  requires i >= 0
  pattern vpos(d, b, i)
  ensures vpos(d, b, i) == b + i * (4 * d)
lemma vcell_def(d, b, i, j int)
  props C02
  auto
  pattern vcell(d, b, i, j)
  ensures vcell(d, b, i, j) == vpos(d, b, i) + 4 * j

fn benck(a [int]int, p int, K [int]pointer.ReferencedId, o, n int) bool =
  forall i int {bkpos(K, o, i)} :: 0 <= i && i < n ==>
    uvat(a, p + bkpos(K, o, i), K[o + i].DataPointer.Offset)
    && uvat(a, p + bkpos(K, o, i) + uvl(K[o + i].DataPointer.Offset), K[o + i].DataPointer.Length)
    && uvat(a, p + bkpos(K, o, i) + uvl(K[o + i].DataPointer.Offset) + uvl(K[o + i].DataPointer.Length), K[o + i].Value)

func (*BTreeNode).Leaf(n) (r bool)
  ensures r <==> len(n.Offsets) == 0

func (*BTreeNode).Size(n) (r int)
  props C02
  let K = elems(n.Ids)
  let I = elems(n.Offsets)
  let s = n
  requires n.VectorDim >= 1 && n.VectorDim < 1073741824 && bnpos(*n, K, I) < 1099511627776
  ensures [size] r == bnpos(*n, K, I)
  at entry use vpos_lin(n.VectorDim, bvpos(*n, K, I), len(n.Vectors))
  at entry mention bkpos(K, sloff(n.Ids), len(n.Ids))
  loop 0
    modifies nothing
    invariant size == bkpos(K, sloff(n.Ids), $i)
  loop 1
    modifies nothing
    invariant size == ipos(I, sloff(s.Offsets), bkpos(K, sloff(s.Ids), len(s.Ids)), $i)

fn vecok(n BTreeNode) bool = forall i int {n.Vectors[i]} :: 0 <= i && i < len(n.Vectors) ==> len(n.Vectors[i]) == n.VectorDim

func (*BTreeNode).MarshalBinary(n) (r, err error)
  props C02
  let s = n
  let K = elems(n.Ids)
  let I = elems(n.Offsets)
  let KB = bkpos(K, sloff(n.Ids), len(n.Ids))
  let OB = bopos(*n, K, I)
  let VB = bvpos(*n, K, I)
  requires n.VectorDim >= 1 && n.VectorDim < 1073741824 && bnpos(*n, K, I) < 1099511627776
  requires 0 < len(n.Ids) && len(n.Ids) < 2147483648 && len(n.Vectors) == len(n.Ids) && vecok(*n)
  ensures [ok] err == nil && len(r) == bnpos(*n, K, I) && fresh(r)
  ensures [head] le4(elems(r), r.off) == (len(n.Offsets) == 0 ? 4294967296 - len(n.Ids) : len(n.Ids))
  ensures [ids] benck(elems(r), r.off, K, sloff(n.Ids), len(n.Ids))
  ensures [offsets] enci(elems(r), r.off, I, sloff(n.Offsets), KB, len(n.Offsets))
  ensures [dim] uvat(elems(r), r.off + OB, n.VectorDim)
  ensures [vectors] forall i, j int {vcell(n.VectorDim, VB, i, j)} :: 0 <= i && i < len(n.Vectors) && 0 <= j && j < n.VectorDim ==> le4(elems(r), r.off + vcell(n.VectorDim, VB, i, j)) == n.Vectors[i][j]
  at entry mention bkpos(K, sloff(n.Ids), len(n.Ids))
  loop 0
    modifies elems(buf)
    invariant ct == bkpos(K, sloff(n.Ids), $i) && fresh(buf) && len(buf) == bnpos(*n, K, I)
    invariant le4(elems(buf), buf.off) == (len(n.Offsets) == 0 ? 4294967296 - len(n.Ids) : len(n.Ids))
    invariant benck(elems(buf), buf.off, K, sloff(n.Ids), $i)
  loop 1
    modifies elems(buf)
    invariant ct == ipos(I, sloff(s.Offsets), KB, $i) && fresh(buf) && len(buf) == bnpos(*s, K, I)
    invariant le4(elems(buf), buf.off) == (len(s.Offsets) == 0 ? 4294967296 - len(s.Ids) : len(s.Ids))
    invariant benck(elems(buf), buf.off, K, sloff(s.Ids), len(s.Ids))
    invariant enci(elems(buf), buf.off, I, sloff(s.Offsets), KB, $i)
  loop 2
    modifies elems(buf)
    invariant ct == vpos(n.VectorDim, VB, $i) && fresh(buf) && len(buf) == bnpos(*n, K, I)
    invariant le4(elems(buf), buf.off) == (len(n.Offsets) == 0 ? 4294967296 - len(n.Ids) : len(n.Ids))
    invariant benck(elems(buf), buf.off, K, sloff(n.Ids), len(n.Ids))
    invariant enci(elems(buf), buf.off, I, sloff(n.Offsets), KB, len(n.Offsets))
    invariant uvat(elems(buf), buf.off + OB, n.VectorDim)
    invariant forall i, j int {vcell(n.VectorDim, VB, i, j)} :: 0 <= i && i < $i && 0 <= j && j < n.VectorDim ==> le4(elems(buf), buf.off + vcell(n.VectorDim, VB, i, j)) == n.Vectors[i][j]
  loop 3
    modifies elems(buf)
    invariant len(v) == n.VectorDim && v == n.Vectors[$up] && 0 <= $up && $up < len(n.Vectors)
    invariant ct == vpos(n.VectorDim, VB, $up) + 4 * $i && fresh(buf) && len(buf) == bnpos(*n, K, I)
    invariant le4(elems(buf), buf.off) == (len(n.Offsets) == 0 ? 4294967296 - len(n.Ids) : len(n.Ids))
    invariant benck(elems(buf), buf.off, K, sloff(n.Ids), len(n.Ids))
    invariant enci(elems(buf), buf.off, I, sloff(n.Offsets), KB, len(n.Offsets))
    invariant uvat(elems(buf), buf.off + OB, n.VectorDim)
    invariant forall i, j int {vcell(n.VectorDim, VB, i, j)} :: 0 <= i && (i < $up && j < n.VectorDim || i == $up && j < $i) && 0 <= j ==> le4(elems(buf), buf.off + vcell(n.VectorDim, VB, i, j)) == n.Vectors[i][j]

// ---- the decoder ----
fn b1(a [int]int, o, n, p int) int = p + un(a, o, n, p)
rec dbk(a [int]int, o, n, i int) int = i <= 0 ? 4 : b1(a, o, n, b1(a, o, n, b1(a, o, n, dbk(a, o, n, i - 1))))
fn dbend(a [int]int, o, n int) int = dipos(a, o, n, dbk(a, o, n, dnk(a, o)), dleaf(a, o) ? 0 : dnk(a, o) + 1)
fn ddim(a [int]int, o, n int) int = uv(a, o, n, dbend(a, o, n))
fn dvb(a [int]int, o, n int) int = b1(a, o, n, dbend(a, o, n))
fn bdecodable(a [int]int, o, n int) bool =
  n >= 4 && dnk(a, o) > 0 && dnk(a, o) < 1000000000
  && (forall i int {dbk(a, o, n, i)} :: 0 <= i && i < dnk(a, o) ==>
     un(a, o, n, dbk(a, o, n, i)) > 0 && un(a, o, n, b1(a, o, n, dbk(a, o, n, i))) > 0 && un(a, o, n, b1(a, o, n, b1(a, o, n, dbk(a, o, n, i)))) > 0
     && b1(a, o, n, b1(a, o, n, b1(a, o, n, dbk(a, o, n, i)))) <= n)
  && (!dleaf(a, o) ==> wfi(a, o, n, dbk(a, o, n, dnk(a, o)), dnk(a, o) + 1))
  && un(a, o, n, dbend(a, o, n)) > 0 && ddim(a, o, n) < 1073741824
  && vpos(ddim(a, o, n), dvb(a, o, n), dnk(a, o)) <= n
fn did(a [int]int, o, n int, K [int]pointer.ReferencedId, ko, i int) bool =
  K[ko + i].DataPointer.Offset == uv(a, o, n, dbk(a, o, n, i))
  && K[ko + i].DataPointer.Length == wrap(uint32, uv(a, o, n, b1(a, o, n, dbk(a, o, n, i))))
  && K[ko + i].Value == uv(a, o, n, b1(a, o, n, b1(a, o, n, dbk(a, o, n, i))))

func (*BTreeNode).UnmarshalBinary(n, buf) (err error)
  props C02
  let A = elems(buf)
  let O = buf.off
  let M = len(buf)
  let KB = dbk(A, O, M, dnk(A, O))
  let D = ddim(A, O, M)
  let VB = dvb(A, O, M)
  requires bdecodable(A, O, M)
  modifies *n
  ensures [ok] err == nil && n.VectorDim == D && n.Width == old(n.Width)
  ensures [shape] len(n.Ids) == dnk(A, O) && len(n.Vectors) == dnk(A, O) && len(n.Offsets) == (dleaf(A, O) ? 0 : dnk(A, O) + 1) && fresh(n.Ids) && fresh(n.Vectors) && fresh(n.Offsets)
  ensures [ids] forall i int {n.Ids[i]} :: 0 <= i && i < len(n.Ids) ==> did(A, O, M, elems(n.Ids), sloff(n.Ids), i)
  ensures [offsets] dchildren(A, O, M, KB, elems(n.Offsets), sloff(n.Offsets), len(n.Offsets))
  ensures [dims] forall i int {n.Vectors[i]} :: 0 <= i && i < len(n.Vectors) ==> len(n.Vectors[i]) == D && fresh(n.Vectors[i])
  ensures [alive] alive(n.Ids) && alive(n.Vectors) && alive(n.Offsets)
  ensures [alivev] forall i int {n.Vectors[i]} :: 0 <= i && i < len(n.Vectors) ==> alive(n.Vectors[i])
  ensures [vectors] forall i, j int {elems(n.Vectors[i])[j]} :: 0 <= i && i < len(n.Vectors) && sloff(n.Vectors[i]) <= j && j < sloff(n.Vectors[i]) + D ==> elems(n.Vectors[i])[j] == le4(A, O + vcell(D, VB, i, j - sloff(n.Vectors[i])))
  loop 0
    modifies elems(n.Ids)
    invariant m == dbk(A, O, M, $i) && 4 <= m && m <= M && len(n.Ids) == dnk(A, O)
    invariant forall i int {n.Ids[i]} :: 0 <= i && i < $i ==> did(A, O, M, elems(n.Ids), sloff(n.Ids), i)
  loop 1
    modifies elems(n.Offsets)
    invariant m == dipos(A, O, M, KB, $i) && 4 <= m && m <= M
    invariant forall i int {n.Offsets[i]} :: 0 <= i && i < $i ==> dchild(A, O, M, KB, elems(n.Offsets), sloff(n.Offsets), i)
  loop 2
    modifies elems(n.Vectors)
    invariant m == vpos(D, VB, $i) && 4 <= m && m <= M && vecdim == D
    invariant forall i int {n.Vectors[i]} :: 0 <= i && i < $i ==> len(n.Vectors[i]) == D && fresh(n.Vectors[i]) && alive(n.Vectors[i])
    invariant forall i, j int {elems(n.Vectors[i])[j]} :: 0 <= i && i < $i && sloff(n.Vectors[i]) <= j && j < sloff(n.Vectors[i]) + D ==> elems(n.Vectors[i])[j] == le4(A, O + vcell(D, VB, i, j - sloff(n.Vectors[i])))
  loop 3
    modifies elems(vector)
    invariant m == vpos(D, VB, $up) + 4 * $i && 4 <= m && m <= M && len(vector) == D && fresh(vector) && 0 <= $up && $up < dnk(A, O)
    invariant forall i int {n.Vectors[i]} :: 0 <= i && i < $up ==> n.Vectors[i].arr != vector.arr
    invariant forall j int {elems(vector)[j]} :: sloff(vector) <= j && j < sloff(vector) + $i ==> elems(vector)[j] == le4(A, O + vcell(D, VB, $up, j - sloff(vector)))

// ---- decoding an encoding gives back the node ----
fn bshape(n BTreeNode) bool =
  0 < len(n.Ids) && len(n.Ids) < 1000000000 && len(n.Vectors) == len(n.Ids) && (len(n.Offsets) == 0 || len(n.Offsets) == len(n.Ids) + 1)
  && 1 <= n.VectorDim && n.VectorDim < 1073741824
fn bkok(K [int]pointer.ReferencedId, ko, nk int) bool =
  forall i int {K[ko + i]} {bkpos(K, ko, i)} :: 0 <= i && i < nk ==> 0 <= K[ko + i].DataPointer.Offset && K[ko + i].DataPointer.Offset < 18446744073709551616 && 0 <= K[ko + i].DataPointer.Length && K[ko + i].DataPointer.Length < 4294967296
     && 0 <= K[ko + i].Value && K[ko + i].Value < 18446744073709551616
// a[o..] is the encoding of n (its vector components apart)
fn benc(a [int]int, o int, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64) bool =
  le4(a, o) == (len(n.Offsets) == 0 ? 4294967296 - len(n.Ids) : len(n.Ids))
  && benck(a, o, K, sloff(n.Ids), len(n.Ids)) && enci(a, o, I, sloff(n.Offsets), bkpos(K, sloff(n.Ids), len(n.Ids)), len(n.Offsets))
  && uvat(a, o + bopos(n, K, I), n.VectorDim)

lemma dbk_step(a [int]int, o, n int, K [int]pointer.ReferencedId, ko, nk, i int)
  props C02
  noauto
  requires benck(a, o, K, ko, nk) && bkok(K, ko, nk) && 0 <= i && i < nk && bkpos(K, ko, i) + bklen(K[ko + i]) <= n && bkpos(K, ko, i) >= 4
  let q = bkpos(K, ko, i)
  let k = K[ko + i]
  let q1 = q + uvl(k.DataPointer.Offset)
  let q2 = q1 + uvl(k.DataPointer.Length)
  assert uvat(a, o + q, k.DataPointer.Offset) && uvat(a, o + q1, k.DataPointer.Length) && uvat(a, o + q2, k.Value)
  assert un(a, o, n, q) == uvl(k.DataPointer.Offset) && uv(a, o, n, q) == k.DataPointer.Offset
  assert un(a, o, n, q1) == uvl(k.DataPointer.Length) && uv(a, o, n, q1) == k.DataPointer.Length
  assert un(a, o, n, q2) == uvl(k.Value) && uv(a, o, n, q2) == k.Value
  assert b1(a, o, n, q) == q1
  assert b1(a, o, n, b1(a, o, n, q)) == q2
  ensures un(a, o, n, q) == uvl(k.DataPointer.Offset) && uv(a, o, n, q) == k.DataPointer.Offset
  ensures un(a, o, n, b1(a, o, n, q)) == uvl(k.DataPointer.Length) && uv(a, o, n, b1(a, o, n, q)) == k.DataPointer.Length
  ensures un(a, o, n, b1(a, o, n, b1(a, o, n, q))) == uvl(k.Value) && uv(a, o, n, b1(a, o, n, b1(a, o, n, q))) == k.Value
  ensures b1(a, o, n, b1(a, o, n, b1(a, o, n, q))) == q + bklen(k)
lemma dbk_enc(a [int]int, o, n int, K [int]pointer.ReferencedId, ko, nk, i int)
  props C02
  induction i
  requires benck(a, o, K, ko, nk) && bkok(K, ko, nk) && 0 <= i && i <= nk && bkpos(K, ko, nk) <= n
  pattern dbk(a, o, n, i), bkpos(K, ko, i)
  mention bkpos(K, ko, nk)
  mention bkpos(K, ko, i - 1)
  mention dbk(a, o, n, i - 1)
  assert i > 0 ==> bkpos(K, ko, i - 1) + bklen(K[ko + i - 1]) <= n && bkpos(K, ko, i - 1) >= 4
  use dbk_step(a, o, n, K, ko, nk, i - 1)
  assert i > 0 ==> dbk(a, o, n, i - 1) == bkpos(K, ko, i - 1)
  ensures dbk(a, o, n, i) == bkpos(K, ko, i)

lemma bnode_head(a [int]int, o, m int, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64)
  props C02
  requires bshape(n) && benc(a, o, n, K, I) && bnpos(n, K, I) <= m
  requires bkok(K, sloff(n.Ids), len(n.Ids)) && iok(I, sloff(n.Offsets), bkpos(K, sloff(n.Ids), len(n.Ids)), len(n.Offsets))
  let KB = bkpos(K, sloff(n.Ids), len(n.Ids))
  let OB = bopos(n, K, I)
  mention bnpos(n, K, I)
  assert 4 <= KB && KB <= OB && OB + uvl(n.VectorDim) <= m
  assert dnk(a, o) == len(n.Ids) && (dleaf(a, o) <==> len(n.Offsets) == 0)
  use dbk_enc(a, o, m, K, sloff(n.Ids), len(n.Ids), len(n.Ids))
  use di_enc(a, o, m, KB, I, sloff(n.Offsets), len(n.Offsets), len(n.Offsets))
  assert dbk(a, o, m, len(n.Ids)) == KB
  assert dbend(a, o, m) == OB
  assert un(a, o, m, OB) == uvl(n.VectorDim) && uv(a, o, m, OB) == n.VectorDim
  ensures [head] dnk(a, o) == len(n.Ids) && (dleaf(a, o) <==> len(n.Offsets) == 0)
  ensures [keys] dbk(a, o, m, dnk(a, o)) == KB && 4 <= KB && KB <= OB
  ensures [dim] dbend(a, o, m) == OB && ddim(a, o, m) == n.VectorDim && un(a, o, m, dbend(a, o, m)) > 0
  ensures [vec] dvb(a, o, m) == bvpos(n, K, I)

lemma bnode_decodable(a [int]int, o, m int, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64)
  props C02
  requires bshape(n) && benc(a, o, n, K, I) && bnpos(n, K, I) <= m
  requires bkok(K, sloff(n.Ids), len(n.Ids)) && iok(I, sloff(n.Offsets), bkpos(K, sloff(n.Ids), len(n.Ids)), len(n.Offsets))
  let KB = bkpos(K, sloff(n.Ids), len(n.Ids))
  use bnode_head(a, o, m, n, K, I)
  use forall i int {dbk(a, o, m, i)} :: dbk_enc(a, o, m, K, sloff(n.Ids), len(n.Ids), i)
  use forall i int {dbk(a, o, m, i)} :: dbk_step(a, o, m, K, sloff(n.Ids), len(n.Ids), i)
  use forall i int {dipos(a, o, m, KB, i)} :: di_un(a, o, m, KB, I, sloff(n.Offsets), len(n.Offsets), i)
  mention bkpos(K, sloff(n.Ids), len(n.Ids))
  ensures [complete] bdecodable(a, o, m)

lemma bnode_roundtrip(a [int]int, o, m int, n BTreeNode, K [int]pointer.ReferencedId, I [int]uint64, r BTreeNode, K1 [int]pointer.ReferencedId, I1 [int]uint64, i, j, x, y int)
  props C02
  requires bshape(n) && benc(a, o, n, K, I) && bnpos(n, K, I) <= m
  requires bkok(K, sloff(n.Ids), len(n.Ids)) && iok(I, sloff(n.Offsets), bkpos(K, sloff(n.Ids), len(n.Ids)), len(n.Offsets))
  let KB = bkpos(K, sloff(n.Ids), len(n.Ids))
  let D = ddim(a, o, m)
  // x and y: component j of vector i as written, and as read
  requires 0 <= i && i < len(n.Vectors) && 0 <= j && j < n.VectorDim ==> le4(a, o + vcell(n.VectorDim, bvpos(n, K, I), i, j)) == x
  requires 0 <= i && i < len(n.Vectors) && 0 <= j && j < D ==> y == le4(a, o + vcell(D, dvb(a, o, m), i, j))
  requires len(r.Ids) == dnk(a, o) && len(r.Vectors) == dnk(a, o) && len(r.Offsets) == (dleaf(a, o) ? 0 : dnk(a, o) + 1) && r.VectorDim == D
  requires 0 <= i && i < len(r.Ids) ==> did(a, o, m, K1, sloff(r.Ids), i)
  requires 0 <= i && i < len(r.Offsets) ==> dchild(a, o, m, dbk(a, o, m, dnk(a, o)), I1, sloff(r.Offsets), i)
  use bnode_head(a, o, m, n, K, I)
  mention bkpos(K, sloff(n.Ids), i)
  mention bkpos(K, sloff(n.Ids), len(n.Ids))
  use dbk_enc(a, o, m, K, sloff(n.Ids), len(n.Ids), i)
  use dbk_step(a, o, m, K, sloff(n.Ids), len(n.Ids), i)
  use di_un(a, o, m, KB, I, sloff(n.Offsets), len(n.Offsets), i)
  ensures [count] len(r.Ids) == len(n.Ids) && len(r.Vectors) == len(n.Vectors) && len(r.Offsets) == len(n.Offsets) && r.VectorDim == n.VectorDim
  ensures [ids] 0 <= i && i < len(n.Ids) ==> K1[sloff(r.Ids) + i] == K[sloff(n.Ids) + i]
  ensures [offsets] 0 <= i && i < len(n.Offsets) ==> I1[sloff(r.Offsets) + i] == I[sloff(n.Offsets) + i]
  ensures [bits] 0 <= i && i < len(n.Vectors) && 0 <= j && j < n.VectorDim ==> x == y
