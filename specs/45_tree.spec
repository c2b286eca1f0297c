// Search trees over pages, away from their encoding: a map N gives the node on every
// page; a node has keys (integers in the order of the real keys), and either child
// pages or payloads. What is proved here is used for both trees of the library.
package tree
fn leaf(nd int) bool
fn nk(nd int) int
fn ky(nd, i int) int
fn ch(nd, i int) int
fn pl(nd, i int) int

hidden fn srt(nd int) bool = nk(nd) >= 0 && (forall i, j int {ky(nd, i), ky(nd, j)} :: 0 <= i && i < j && j < nk(nd) ==> ky(nd, i) < ky(nd, j))
lemma srt_def(nd int)
  props C07, C08, C11
  noauto
  ensures srt(nd) <==> nk(nd) >= 0 && (forall i, j int {ky(nd, i), ky(nd, j)} :: 0 <= i && i < j && j < nk(nd) ==> ky(nd, i) < ky(nd, j))
// the number of keys up to k
rec cnt(nd, k, n int) int = n <= 0 ? 0 : cnt(nd, k, n - 1) + (ky(nd, n - 1) <= k ? 1 : 0)
fn idx(nd, k int) int
axiom idx_def: forall nd, k int {idx(nd, k)} :: idx(nd, k) == cnt(nd, k, nk(nd))
lemma cnt_range(nd, k, n int)
  props C07, C08, C11
  induction n
  noauto
  requires n >= 0
  mention cnt(nd, k, n - 1)
  mention cnt(nd, k, n)
  ensures 0 <= cnt(nd, k, n) && cnt(nd, k, n) <= n
lemma cnt_split(nd, k, n, i int)
  props C07, C08, C11
  induction n
  noauto
  requires srt(nd) && 0 <= i && i < n && n <= nk(nd)
  use srt_def(nd)
  use cnt_range(nd, k, n - 1)
  use cnt_range(nd, k, n)
  mention cnt(nd, k, n - 1)
  mention cnt(nd, k, n)
  mention ky(nd, n - 1)
  mention ky(nd, n - 2)
  mention cnt(nd, k, n - 2)
  ensures ky(nd, i) <= k <==> i < cnt(nd, k, n)
// idx is where k belongs among the keys
lemma idx_range(nd, k int)
  props C07, C08, C11
  auto
  pattern idx(nd, k)
  requires srt(nd)
  use srt_def(nd)
  use cnt_range(nd, k, nk(nd))
  ensures 0 <= idx(nd, k) && idx(nd, k) <= nk(nd)
lemma idx_key(nd, k, i int)
  props C07, C08, C11
  auto
  pattern idx(nd, k), ky(nd, i)
  requires srt(nd) && 0 <= i && i < nk(nd)
  use cnt_split(nd, k, nk(nd), i)
  ensures ky(nd, i) <= k <==> i < idx(nd, k)
lemma idx_unique(nd, k, j int)
  props C07, C08, C11
  requires srt(nd) && 0 <= j && j <= nk(nd) && (j > 0 ==> ky(nd, j - 1) <= k) && (j < nk(nd) ==> k < ky(nd, j))
  mention idx(nd, k)
  mention ky(nd, j - 1)
  mention ky(nd, j)
  ensures idx(nd, k) == j
lemma idx_mono(nd, a, b int)
  props C07, C08, C11
  requires srt(nd) && a <= b
  mention ky(nd, idx(nd, a) - 1)
  mention idx(nd, b)
  ensures idx(nd, a) <= idx(nd, b)

// the page reached by k after l steps from r
rec tp(N [int]int, r, k, l int) int = l <= 0 ? r : ch(N[tp(N, r, k, l - 1)], idx(N[tp(N, r, k, l - 1)], k))
fn nd(N [int]int, r, k, l int) int = N[tp(N, r, k, l)]
fn ix(N [int]int, r, k, l int) int = idx(nd(N, r, k, l), k)
fn pg(p int) bool = p >= 4096 && p % 4096 == 0 && p < 4611686018427387904
fn lev(l, h int) bool = 0 <= l && l <= h

// Well-formed tree of height h at page r.
// nodes are sorted pages, leaves exactly at level h
hidden fn W1(N [int]int, r, h int) bool = h >= 0 && (forall k, l int {tp(N, r, k, l)} :: lev(l, h) ==>
   pg(tp(N, r, k, l)) && srt(nd(N, r, k, l)) && (leaf(nd(N, r, k, l)) <==> l == h) && (l > 0 || l == h ==> nk(nd(N, r, k, l)) >= 1))
// no page at two levels
hidden fn W2(N [int]int, r, h int) bool = forall k, l, j, m int {tp(N, r, k, l), tp(N, r, j, m)} :: lev(l, h) && lev(m, h) && tp(N, r, k, l) == tp(N, r, j, m) ==> l == m
// every page is reached one way
hidden fn W3(N [int]int, r, h int) bool = forall k, j, l, m int {tp(N, r, k, l), tp(N, r, j, l), tp(N, r, k, m)} :: lev(l, h) && lev(m, l) && tp(N, r, k, l) == tp(N, r, j, l) ==>
   tp(N, r, k, m) == tp(N, r, j, m) && (m < l ==> ix(N, r, k, m) == ix(N, r, j, m))
// the keys of a node lead to it
hidden fn W4(N [int]int, r, h int) bool = forall k, l, i int {tp(N, r, k, l), ky(nd(N, r, k, l), i)} :: lev(l, h) && 0 <= i && i < nk(nd(N, r, k, l)) ==>
   tp(N, r, ky(nd(N, r, k, l), i), l) == tp(N, r, k, l)
// and so does something below them, in inner nodes
hidden fn W5(N [int]int, r, h int) bool = forall k, l int {tp(N, r, k, l)} :: 0 < l && l < h ==> tp(N, r, ky(nd(N, r, k, l), 0) - 1, l) == tp(N, r, k, l)
hidden fn W(N [int]int, r, h int) bool = W1(N, r, h) && W2(N, r, h) && W3(N, r, h) && W4(N, r, h) && W5(N, r, h)
lemma W1_def(N [int]int, r, h int)
  props C07, C08, C11
  noauto
  ensures W1(N, r, h) <==> (h >= 0 && (forall k, l int {tp(N, r, k, l)} :: lev(l, h) ==>
   pg(tp(N, r, k, l)) && srt(nd(N, r, k, l)) && (leaf(nd(N, r, k, l)) <==> l == h) && (l > 0 || l == h ==> nk(nd(N, r, k, l)) >= 1)))
lemma W2_def(N [int]int, r, h int)
  props C07, C08, C11
  noauto
  ensures W2(N, r, h) <==> (forall k, l, j, m int {tp(N, r, k, l), tp(N, r, j, m)} :: lev(l, h) && lev(m, h) && tp(N, r, k, l) == tp(N, r, j, m) ==> l == m)
lemma W3_def(N [int]int, r, h int)
  props C07, C08, C11
  noauto
  ensures W3(N, r, h) <==> (forall k, j, l, m int {tp(N, r, k, l), tp(N, r, j, l), tp(N, r, k, m)} :: lev(l, h) && lev(m, l) && tp(N, r, k, l) == tp(N, r, j, l) ==>
   tp(N, r, k, m) == tp(N, r, j, m) && (m < l ==> ix(N, r, k, m) == ix(N, r, j, m)))
lemma W4_def(N [int]int, r, h int)
  props C07, C08, C11
  noauto
  ensures W4(N, r, h) <==> (forall k, l, i int {tp(N, r, k, l), ky(nd(N, r, k, l), i)} :: lev(l, h) && 0 <= i && i < nk(nd(N, r, k, l)) ==>
   tp(N, r, ky(nd(N, r, k, l), i), l) == tp(N, r, k, l))
lemma W5_def(N [int]int, r, h int)
  props C07, C08, C11
  noauto
  ensures W5(N, r, h) <==> (forall k, l int {tp(N, r, k, l)} :: 0 < l && l < h ==> tp(N, r, ky(nd(N, r, k, l), 0) - 1, l) == tp(N, r, k, l))
lemma W_def(N [int]int, r, h int)
  props C07, C08, C11
  noauto
  ensures W(N, r, h) <==> (W1(N, r, h) && W2(N, r, h) && W3(N, r, h) && W4(N, r, h) && W5(N, r, h))

// ---- reading a well-formed tree ----
lemma W_node(N [int]int, r, h, k, l int)
  props C07, C08, C11
  noauto
  requires W(N, r, h) && lev(l, h)
  use W_def(N, r, h)
  use W1_def(N, r, h)
  mention tp(N, r, k, l)
  ensures pg(tp(N, r, k, l)) && srt(nd(N, r, k, l)) && (leaf(nd(N, r, k, l)) <==> l == h) && (l > 0 || l == h ==> nk(nd(N, r, k, l)) >= 1) && h >= 0
lemma W_height(N [int]int, r, h int)
  props C07, C08, C11
  auto
  noauto
  pattern W(N, r, h)
  requires W(N, r, h)
  use W_def(N, r, h)
  use W1_def(N, r, h)
  ensures h >= 0
lemma W_level(N [int]int, r, h, k, l, j, m int)
  props C07, C08, C11
  noauto
  requires W(N, r, h) && lev(l, h) && lev(m, h) && tp(N, r, k, l) == tp(N, r, j, m)
  use W_def(N, r, h)
  use W2_def(N, r, h)
  ensures l == m
lemma W_path(N [int]int, r, h, k, j, l, m int)
  props C07, C08, C11
  noauto
  requires W(N, r, h) && lev(l, h) && lev(m, l) && tp(N, r, k, l) == tp(N, r, j, l)
  use W_def(N, r, h)
  use W3_def(N, r, h)
  mention tp(N, r, k, m)
  ensures tp(N, r, k, m) == tp(N, r, j, m) && (m < l ==> ix(N, r, k, m) == ix(N, r, j, m))
lemma W_key(N [int]int, r, h, k, l, i int)
  props C07, C08, C11
  noauto
  requires W(N, r, h) && lev(l, h) && 0 <= i && i < nk(nd(N, r, k, l))
  use W_def(N, r, h)
  use W4_def(N, r, h)
  ensures tp(N, r, ky(nd(N, r, k, l), i), l) == tp(N, r, k, l)
lemma W_below(N [int]int, r, h, k, l int)
  props C07, C08, C11
  noauto
  requires W(N, r, h) && 0 < l && l < h
  use W_def(N, r, h)
  use W5_def(N, r, h)
  ensures tp(N, r, ky(nd(N, r, k, l), 0) - 1, l) == tp(N, r, k, l)
lemma at_step(N [int]int, r, k, l int)
  props C07, C08, C11
  noauto
  requires l > 0
  mention tp(N, r, k, l)
  ensures tp(N, r, k, l) == ch(nd(N, r, k, l - 1), ix(N, r, k, l - 1))
lemma at_zero(N [int]int, r, k int)
  props C07, C08, C11
  auto
  pattern tp(N, r, k, 0)
  mention tp(N, r, k, 0)
  ensures tp(N, r, k, 0) == r
// what lies between two keys of one page leads to that page
lemma conv(N [int]int, r, h, a, k, b, l int)
  props C07, C08, C11
  induction l
  noauto
  requires W(N, r, h) && lev(l, h) && a <= k && k <= b && tp(N, r, a, l) == tp(N, r, b, l)
  use W_path(N, r, h, a, b, l, l - 1)
  use at_step(N, r, a, l)
  use at_step(N, r, k, l)
  mention tp(N, r, k, 0)
  mention tp(N, r, a, 0)
  use W_node(N, r, h, a, l - 1)
  use idx_mono(nd(N, r, a, l - 1), a, k)
  use idx_mono(nd(N, r, a, l - 1), k, b)
  ensures tp(N, r, k, l) == tp(N, r, a, l)
lemma at_top(N [int]int, r, k, l int)
  props C07, C08, C11
  noauto
  requires l <= 0
  mention tp(N, r, k, l)
  ensures tp(N, r, k, l) == r
// some key reaches below the keys of any inner node
lemma W_reach0(N [int]int, r, h, k, l int)
  props C07, C08, C11
  noauto
  requires W(N, r, h) && 0 <= l && l < h
  use W_below(N, r, h, k, l)
  use at_top(N, r, k, l)
  use at_top(N, r, ky(nd(N, r, k, l), 0) - 1, l)
  ensures tp(N, r, ky(nd(N, r, k, l), 0) - 1, l) == tp(N, r, k, l)
// ---- lookups ----
fn has(N [int]int, r, h, k int) bool = ix(N, r, k, h) > 0 && ky(nd(N, r, k, h), ix(N, r, k, h) - 1) == k
fn val(N [int]int, r, h, k int) int = pl(nd(N, r, k, h), ix(N, r, k, h) - 1)
// nodes that read the same
hidden fn same(x, y int) bool = (leaf(x) <==> leaf(y)) && nk(x) == nk(y) && (forall i int {ky(x, i)} {ky(y, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == ky(y, i))
  && (leaf(x) ==> forall i int {pl(x, i)} {pl(y, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == pl(y, i))
  && (!leaf(x) ==> forall i int {ch(x, i)} {ch(y, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == ch(y, i))
lemma same_def(x, y int)
  props C07, C08, C11
  noauto
  ensures same(x, y) <==> (leaf(x) <==> leaf(y)) && nk(x) == nk(y) && (forall i int {ky(x, i)} {ky(y, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == ky(y, i))
  && (leaf(x) ==> forall i int {pl(x, i)} {pl(y, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == pl(y, i))
  && (!leaf(x) ==> forall i int {ch(x, i)} {ch(y, i)} :: 0 <= i && i <= nk(x) ==> ch(x, i) == ch(y, i))
lemma same_srt(x, y int)
  props C07, C08, C11
  noauto
  requires same(x, y) && srt(x)
  use same_def(x, y)
  use srt_def(x)
  use srt_def(y)
  ensures srt(y)
lemma same_idx(x, y, k int)
  props C07, C08, C11
  requires same(x, y) && srt(x)
  use same_def(x, y)
  use same_srt(x, y)
  use idx_unique(y, k, idx(x, k))
  mention ky(y, idx(x, k))
  mention ky(y, idx(x, k) - 1)
  ensures idx(y, k) == idx(x, k)
// a map that reads the same on the pages reached
lemma at_same(N, M [int]int, r, h, k, l int)
  props C07, C08, C11
  induction l
  noauto
  requires W(N, r, h) && lev(l, h) && (forall m int {tp(N, r, k, m)} :: 0 <= m && m < l ==> same(nd(N, r, k, m), M[tp(N, r, k, m)]))
  use at_step(N, r, k, l)
  use at_step(M, r, k, l)
  mention tp(N, r, k, 0)
  mention tp(M, r, k, 0)
  use W_node(N, r, h, k, l - 1)
  use same_def(nd(N, r, k, l - 1), M[tp(N, r, k, l - 1)])
  use same_idx(nd(N, r, k, l - 1), M[tp(N, r, k, l - 1)], k)
  mention ch(nd(N, r, k, l - 1), ix(N, r, k, l - 1))
  use idx_range(nd(N, r, k, l - 1), k)
  ensures tp(M, r, k, l) == tp(N, r, k, l)
// the whole tree reads the same in M
hidden fn agree(N, M [int]int, r, h int) bool = forall k, l int {tp(N, r, k, l)} :: lev(l, h) ==> same(nd(N, r, k, l), M[tp(N, r, k, l)])
lemma agree_def(N, M [int]int, r, h int)
  props C07, C08, C11
  noauto
  ensures agree(N, M, r, h) <==> (forall k, l int {tp(N, r, k, l)} :: lev(l, h) ==> same(nd(N, r, k, l), M[tp(N, r, k, l)]))
lemma agree_at(N, M [int]int, r, h, k, l int)
  props C07, C08, C11
  noauto
  requires W(N, r, h) && agree(N, M, r, h) && lev(l, h)
  use agree_def(N, M, r, h)
  use at_same(N, M, r, h, k, l)
  mention tp(N, r, k, l)
  use same_def(nd(N, r, k, l), M[tp(N, r, k, l)])
  use W_node(N, r, h, k, l)
  use same_srt(nd(N, r, k, l), M[tp(N, r, k, l)])
  use same_idx(nd(N, r, k, l), M[tp(N, r, k, l)], k)
  ensures tp(M, r, k, l) == tp(N, r, k, l) && same(nd(N, r, k, l), nd(M, r, k, l)) && srt(nd(M, r, k, l)) && ix(M, r, k, l) == ix(N, r, k, l)
lemma agree_W(N, M [int]int, r, h int)
  props C07, C08, C11
  noauto
  requires W(N, r, h) && agree(N, M, r, h)
  use W_def(M, r, h)
  use W1_def(M, r, h)
  use W2_def(M, r, h)
  use W3_def(M, r, h)
  use W4_def(M, r, h)
  use W5_def(M, r, h)
  use W_def(N, r, h)
  use W1_def(N, r, h)
  use forall k, l int {tp(M, r, k, l)} :: agree_at(N, M, r, h, k, l)
  use forall k, l int {tp(M, r, k, l)} :: W_node(N, r, h, k, l)
  use forall k, l int {tp(M, r, k, l)} :: same_def(nd(N, r, k, l), nd(M, r, k, l))
  use forall k, l, j, m int {tp(M, r, k, l), tp(M, r, j, m)} :: W_level(N, r, h, k, l, j, m)
  use forall k, j, l, m int {tp(M, r, k, l), tp(M, r, j, l), tp(M, r, k, m)} :: W_path(N, r, h, k, j, l, m)
  use forall k, l, i int {tp(M, r, k, l), ky(nd(M, r, k, l), i)} :: W_key(N, r, h, k, l, i)
  use forall k, l int {tp(M, r, k, l)} :: W_below(N, r, h, k, l)
  ensures [w1] W1(M, r, h)
  ensures [w2] W2(M, r, h)
  ensures [w3] W3(M, r, h)
  ensures [w4] W4(M, r, h)
  ensures [w5] W5(M, r, h)
  ensures [w] W(M, r, h)
lemma agree_has(N, M [int]int, r, h, k int)
  props C07, C08, C11
  noauto
  use W_height(N, r, h)
  requires W(N, r, h) && agree(N, M, r, h)
  use W_node(N, r, h, k, h)
  use agree_at(N, M, r, h, k, h)
  use same_def(nd(N, r, k, h), nd(M, r, k, h))
  use idx_range(nd(N, r, k, h), k)
  mention ky(nd(M, r, k, h), ix(N, r, k, h) - 1)
  mention pl(nd(M, r, k, h), ix(N, r, k, h) - 1)
  ensures has(M, r, h, k) <==> has(N, r, h, k)
  ensures has(N, r, h, k) ==> val(M, r, h, k) == val(N, r, h, k)

// ---- a new entry in a leaf ----
// x is p with key s and payload v put in at place j
fn grown(p, x, j, s, v int) bool = leaf(p) && leaf(x) && nk(x) == nk(p) + 1 && 0 <= j && j <= nk(p)
  && (forall i int {ky(x, i)} :: 0 <= i && i < nk(x) ==> ky(x, i) == (i < j ? ky(p, i) : i == j ? s : ky(p, i - 1)))
  && (forall i int {pl(x, i)} :: 0 <= i && i < nk(x) ==> pl(x, i) == (i < j ? pl(p, i) : i == j ? v : pl(p, i - 1)))
lemma grown_srt(p, x, s, v int)
  props C07, C11
  noauto
  requires srt(p) && grown(p, x, idx(p, s), s, v) && !(idx(p, s) > 0 && ky(p, idx(p, s) - 1) == s)
  use srt_def(p)
  use srt_def(x)
  use forall i int {ky(p, i)} :: idx_key(p, s, i)
  mention ky(p, idx(p, s) - 1)
  mention ky(p, idx(p, s))
  ensures srt(x)
lemma grown_idx(p, x, s, v, k int)
  props C07, C11
  noauto
  requires srt(p) && grown(p, x, idx(p, s), s, v) && !(idx(p, s) > 0 && ky(p, idx(p, s) - 1) == s)
  use grown_srt(p, x, s, v)
  use idx_range(p, k)
  use idx_range(p, s)
  use idx_key(p, k, idx(p, k))
  use idx_key(p, k, idx(p, k) - 1)
  use idx_key(p, s, idx(p, k))
  use idx_key(p, s, idx(p, k) - 1)
  use idx_key(p, k, idx(p, s))
  use idx_key(p, k, idx(p, s) - 1)
  use idx_key(p, s, idx(p, s))
  use idx_key(p, s, idx(p, s) - 1)
  use idx_unique(x, k, idx(p, k) + (k >= s ? 1 : 0))
  mention ky(x, idx(p, k))
  mention ky(x, idx(p, k) + 1)
  mention ky(x, idx(p, k) - 1)
  ensures idx(x, k) == idx(p, k) + (k >= s ? 1 : 0)
lemma ins_at(N [int]int, r, h, s, x, k, l int)
  props C07, C11
  noauto
  requires W(N, r, h) && lev(l, h)
  use W_node(N, r, h, k, l)
  use forall m int {tp(N, r, k, m)} :: W_level(N, r, h, k, m, s, h)
  use forall a, b int {same(a, b)} :: same_def(a, b)
  use at_same(N, N[tp(N, r, s, h) <- x], r, h, k, l)
  ensures tp(N[tp(N, r, s, h) <- x], r, k, l) == tp(N, r, k, l)
lemma ins_W(N [int]int, r, h, s, v, x int)
  props C07, C11
  noauto
  use W_height(N, r, h)
  let p = tp(N, r, s, h)
  let M = N[p <- x]
  requires W(N, r, h) && !has(N, r, h, s) && grown(N[p], x, idx(N[p], s), s, v)
  use W_def(M, r, h)
  use W1_def(M, r, h)
  use W2_def(M, r, h)
  use W3_def(M, r, h)
  use W4_def(M, r, h)
  use W5_def(M, r, h)
  use W_node(N, r, h, s, h)
  use grown_srt(N[p], x, s, v)
  use forall k, l int {tp(M, r, k, l)} :: ins_at(N, r, h, s, x, k, l)
  use forall k, l int {tp(M, r, k, l)} :: W_node(N, r, h, k, l)
  use forall k, l, j, m int {tp(M, r, k, l), tp(M, r, j, m)} :: W_level(N, r, h, k, l, j, m)
  use forall k, l int {tp(M, r, k, l)} :: W_level(N, r, h, k, l, s, h)
  use forall k, j, l, m int {tp(M, r, k, l), tp(M, r, j, l), tp(M, r, k, m)} :: W_path(N, r, h, k, j, l, m)
  use forall k, l, i int {tp(M, r, k, l), ky(nd(N, r, k, l), i)} :: W_key(N, r, h, k, l, i)
  use forall k, l int {tp(M, r, k, l)} :: W_below(N, r, h, k, l)
  ensures [w1] W1(M, r, h)
  ensures [w2] W2(M, r, h)
  ensures [w3] W3(M, r, h)
  ensures [w4] W4(M, r, h)
  ensures [w5] W5(M, r, h)
  ensures [w] W(M, r, h)
lemma ins_has(N [int]int, r, h, s, v, x, k int)
  props C07, C11
  use W_height(N, r, h)
  let p = tp(N, r, s, h)
  let M = N[p <- x]
  let j = idx(N[p], s)
  requires W(N, r, h) && !has(N, r, h, s) && grown(N[p], x, j, s, v)
  use W_node(N, r, h, s, h)
  use W_node(N, r, h, k, h)
  use ins_at(N, r, h, s, x, k, h)
  use grown_srt(N[p], x, s, v)
  use grown_idx(N[p], x, s, v, k)
  use W_path(N, r, h, s, k, h, h)
  use W_key(N, r, h, s, h, 0)
  use idx_range(N[p], k)
  use idx_range(N[p], s)
  let i = idx(N[p], k)
  use idx_key(N[p], s, i)
  use idx_key(N[p], s, i - 1)
  use idx_key(N[p], k, i - 1)
  mention ky(x, i)
  mention ky(x, i - 1)
  mention pl(x, i)
  mention pl(x, i - 1)
  assert k == s ==> tp(N, r, k, h) == p && i == j && idx(x, k) == j + 1
  assert tp(N, r, k, h) == p && k < s ==> i <= j && idx(x, k) == i
  assert tp(N, r, k, h) == p && k > s ==> i >= j && idx(x, k) == i + 1 && (i > j ==> ky(x, i) == ky(N[p], i - 1) && pl(x, i) == pl(N[p], i - 1))
  ensures [has] has(M, r, h, k) <==> has(N, r, h, k) || k == s
  ensures [new] val(M, r, h, s) == v || k != s
  ensures [old] k != s && has(N, r, h, k) ==> val(M, r, h, k) == val(N, r, h, k)

// ---- a new root above the old one (with no key as yet) ----
hidden fn unreached(N [int]int, r, h, y int) bool = forall k, l int {tp(N, r, k, l)} :: lev(l, h) ==> tp(N, r, k, l) != y
lemma unreached_def(N [int]int, r, h, y int)
  props C07, C11
  noauto
  ensures unreached(N, r, h, y) <==> (forall k, l int {tp(N, r, k, l)} :: lev(l, h) ==> tp(N, r, k, l) != y)
fn stub(x, r int) bool = !leaf(x) && nk(x) == 0 && ch(x, 0) == r
lemma stub_idx(x, r, k int)
  props C07, C11
  noauto
  requires stub(x, r)
  use srt_def(x)
  use idx_range(x, k)
  ensures srt(x) && idx(x, k) == 0
lemma push_at(N [int]int, r, h, z, x, k, l int)
  props C07, C11
  induction l
  noauto
  let M = N[z <- x]
  requires W(N, r, h) && unreached(N, r, h, z) && stub(x, r) && 1 <= l && l <= h + 1
  use stub_idx(x, r, k)
  use at_step(M, z, k, l)
  use at_step(N, r, k, l - 1)
  mention tp(M, z, k, 0)
  mention tp(N, r, k, 0)
  use unreached_def(N, r, h, z)
  mention tp(N, r, k, l - 2)
  ensures tp(M, z, k, l) == tp(N, r, k, l - 1) && nd(M, z, k, l) == nd(N, r, k, l - 1)
lemma push_W3(N [int]int, r, h, z, x int)
  props C07, C11
  noauto
  let M = N[z <- x]
  requires W(N, r, h) && unreached(N, r, h, z) && stub(x, r)
  use W3_def(M, z, h + 1)
  use W_def(N, r, h)
  use W3_def(N, r, h)
  use forall k, l int {tp(M, z, k, l)} :: at_top(M, z, k, l)
  use forall k, l int {tp(M, z, k, l)} :: push_at(N, r, h, z, x, k, l)
  use forall k int {idx(x, k)} :: stub_idx(x, r, k)
  mention M[z]
  ensures W3(M, z, h + 1)
lemma push_W1(N [int]int, r, h, z, x int)
  props C07, C11
  noauto
  let M = N[z <- x]
  requires W(N, r, h) && unreached(N, r, h, z) && stub(x, r) && pg(z) && nk(N[r]) >= 1
  use W_height(N, r, h)
  use W1_def(M, z, h + 1)
  use stub_idx(x, r, 0)
  mention M[z]
  use forall k, l int {tp(M, z, k, l)} :: at_top(M, z, k, l)
  use forall k, l int {tp(M, z, k, l)} :: at_top(N, r, k, l - 1)
  use forall k, l int {tp(M, z, k, l)} :: push_at(N, r, h, z, x, k, l)
  use forall k, l int {tp(M, z, k, l)} :: W_node(N, r, h, k, l - 1)
  ensures W1(M, z, h + 1)
lemma push_Ws(N [int]int, r, h, z, x int)
  props C07, C11
  noauto
  let M = N[z <- x]
  requires W(N, r, h) && unreached(N, r, h, z) && stub(x, r) && pg(z) && nk(N[r]) >= 1
  use push_W3(N, r, h, z, x)
  use W_height(N, r, h)
  use W2_def(M, z, h + 1)
  use W4_def(M, z, h + 1)
  use W5_def(M, z, h + 1)
  use forall k int {idx(x, k)} :: stub_idx(x, r, k)
  use stub_idx(x, r, 0)
  use unreached_def(N, r, h, z)
  use forall k, l int {tp(M, z, k, l)} :: at_top(M, z, k, l)
  use forall k, l int {tp(M, z, k, l)} :: push_at(N, r, h, z, x, k, l)
  use forall k, l int {tp(M, z, k, l)} :: W_node(N, r, h, k, l - 1)
  use forall k, l, j, m int {tp(M, z, k, l), tp(M, z, j, m)} :: W_level(N, r, h, k, l - 1, j, m - 1)
  use forall k, l, i int {tp(M, z, k, l), ky(nd(N, r, k, l - 1), i)} :: W_key(N, r, h, k, l - 1, i)
  use forall k, l int {tp(M, z, k, l)} :: W_below(N, r, h, k, l - 1)
  use forall k, l int {tp(M, z, k, l)} :: W_reach0(N, r, h, k, l - 1)
  ensures [w2] W2(M, z, h + 1)
  ensures [w4] W4(M, z, h + 1)
  ensures [w5] W5(M, z, h + 1)
  ensures [w3] W3(M, z, h + 1)
lemma push_W(N [int]int, r, h, z, x int)
  props C07, C11
  noauto
  let M = N[z <- x]
  requires W(N, r, h) && unreached(N, r, h, z) && stub(x, r) && pg(z) && nk(N[r]) >= 1
  use push_Ws(N, r, h, z, x)
  use push_W1(N, r, h, z, x)
  use W_def(M, z, h + 1)
  ensures [w] W(M, z, h + 1)
lemma push_has(N [int]int, r, h, z, x, k int)
  props C07, C11
  noauto
  let M = N[z <- x]
  requires W(N, r, h) && unreached(N, r, h, z) && stub(x, r)
  use W_height(N, r, h)
  use push_at(N, r, h, z, x, k, h + 1)
  ensures has(M, z, h + 1, k) <==> has(N, r, h, k)
  ensures val(M, z, h + 1, k) == val(N, r, h, k)

// ---- a node is split ----
// y takes the part of x from place m on; the left part is l; key m goes up
fn lefthalf(x, l, m int) bool = (leaf(l) <==> leaf(x)) && nk(l) == m
  && (forall i int {ky(l, i)} :: 0 <= i && i < m ==> ky(l, i) == ky(x, i))
  && (leaf(x) ==> forall i int {pl(l, i)} :: 0 <= i && i < m ==> pl(l, i) == pl(x, i))
  && (!leaf(x) ==> forall i int {ch(l, i)} :: 0 <= i && i <= m ==> ch(l, i) == ch(x, i))
fn righthalf(x, y, m int) bool = (leaf(y) <==> leaf(x)) && nk(y) == nk(x) - (leaf(x) ? m : m + 1)
  && (forall i int {ky(y, i)} :: 0 <= i && i < nk(y) ==> ky(y, i) == ky(x, (leaf(x) ? m : m + 1) + i))
  && (leaf(x) ==> forall i int {pl(y, i)} :: 0 <= i && i < nk(y) ==> pl(y, i) == pl(x, m + i))
  && (!leaf(x) ==> forall i int {ch(y, i)} :: 0 <= i && i <= nk(y) ==> ch(y, i) == ch(x, m + 1 + i))
// q2 is the inner node q with key s at place c and page y to its right
fn parent(q, q2, c, s, y int) bool = !leaf(q) && !leaf(q2) && nk(q2) == nk(q) + 1 && 0 <= c && c <= nk(q)
  && (forall i int {ky(q2, i)} :: 0 <= i && i < nk(q2) ==> ky(q2, i) == (i < c ? ky(q, i) : i == c ? s : ky(q, i - 1)))
  && (forall i int {ch(q2, i)} :: 0 <= i && i <= nk(q2) ==> ch(q2, i) == (i <= c ? ch(q, i) : i == c + 1 ? y : ch(q, i - 1)))
lemma left_idx(x, l, m, k int)
  props C07, C11
  noauto
  requires srt(x) && lefthalf(x, l, m) && 0 < m && m < nk(x)
  use srt_def(x)
  use srt_def(l)
  use idx_range(x, k)
  use idx_key(x, k, idx(x, k))
  use idx_key(x, k, idx(x, k) - 1)
  use idx_key(x, k, m)
  use idx_key(x, k, m - 1)
  use idx_unique(l, k, idx(x, k) < m ? idx(x, k) : m)
  mention ky(l, idx(x, k))
  mention ky(l, idx(x, k) - 1)
  mention ky(l, m - 1)
  ensures srt(l) && idx(l, k) == (idx(x, k) < m ? idx(x, k) : m)
lemma right_idx(x, y, m, k int)
  props C07, C11
  noauto
  let o = leaf(x) ? m : m + 1
  requires srt(x) && righthalf(x, y, m) && 0 < m && o < nk(x)
  use srt_def(x)
  use srt_def(y)
  use idx_range(x, k)
  use idx_key(x, k, idx(x, k))
  use idx_key(x, k, idx(x, k) - 1)
  use idx_key(x, k, o)
  use idx_unique(y, k, idx(x, k) < o ? 0 : idx(x, k) - o)
  mention ky(y, idx(x, k) - o)
  mention ky(y, idx(x, k) - o - 1)
  mention ky(y, 0)
  ensures srt(y) && idx(y, k) == (idx(x, k) < o ? 0 : idx(x, k) - o)
lemma parent_idx(q, q2, c, s, y, k int)
  props C07, C11
  noauto
  requires srt(q) && parent(q, q2, c, s, y) && (c > 0 ==> ky(q, c - 1) < s) && (c < nk(q) ==> s < ky(q, c))
  use srt_def(q)
  use srt_def(q2)
  use idx_range(q, k)
  let i = idx(q, k)
  use idx_key(q, k, i)
  use idx_key(q, k, i - 1)
  use idx_key(q, k, c)
  use idx_key(q, k, c - 1)
  use idx_unique(q2, k, i + (k >= s ? 1 : 0))
  mention ky(q2, i)
  mention ky(q2, i + 1)
  mention ky(q2, i - 1)
  ensures srt(q2) && idx(q2, k) == i + (k >= s ? 1 : 0)
// N with x = N[p] split at m into l (on p) and y2 (on y), and q2 in the parent, for
// the page p that key a reaches after n steps
fn splitok(N [int]int, r, h, a, n, m, y, l, y2, q2 int) bool = W(N, r, h) && 1 <= n && n <= h && unreached(N, r, h, y) && pg(y)
  && 0 < m && (leaf(nd(N, r, a, n)) ? m : m + 1) < nk(nd(N, r, a, n))
  && lefthalf(nd(N, r, a, n), l, m) && righthalf(nd(N, r, a, n), y2, m)
  && parent(nd(N, r, a, n - 1), q2, ix(N, r, a, n - 1), ky(nd(N, r, a, n), m), y)
fn splitn(N [int]int, r, a, n, y, l, y2, q2 int) [int]int = N[tp(N, r, a, n) <- l][y <- y2][tp(N, r, a, n - 1) <- q2]
// the separator lies between its neighbours
lemma split_sep(N [int]int, r, h, a, n, m, i int)
  props C07, C11
  noauto
  let x = nd(N, r, a, n)
  let q = nd(N, r, a, n - 1)
  let c = ix(N, r, a, n - 1)
  requires W(N, r, h) && 1 <= n && n <= h && 0 < m && m < nk(x)
  use W_node(N, r, h, a, n)
  use W_node(N, r, h, a, n - 1)
  use W_key(N, r, h, a, n, m)
  use W_key(N, r, h, a, n, 0)
  use W_path(N, r, h, ky(x, m), a, n, n - 1)
  use W_path(N, r, h, ky(x, 0), a, n, n - 1)
  use srt_def(x)
  use idx_key(q, ky(x, m), c)
  use idx_key(q, ky(x, 0), c - 1)
  use idx_range(q, a)
  mention ky(x, 0)
  mention ky(x, m)
  ensures c > 0 ==> ky(q, c - 1) < ky(x, m)
  ensures c < nk(q) ==> ky(x, m) < ky(q, c)
  ensures 0 <= c && c <= nk(q) && srt(q) && srt(x) && !leaf(q)
// where a key is after the split
fn moved(N [int]int, r, a, n, m, y, k, l int) int = l == n && tp(N, r, k, n) == tp(N, r, a, n) && k >= ky(nd(N, r, a, n), m) ? y : tp(N, r, k, l)
lemma split_nodes(N [int]int, r, h, a, n, m, y, l, y2, q2, k, j int)
  props C07, C11
  noauto
  let p = tp(N, r, a, n)
  let q = tp(N, r, a, n - 1)
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2) && lev(j, h)
  use W_level(N, r, h, a, n, a, n - 1)
  use W_level(N, r, h, k, j, a, n)
  use W_level(N, r, h, k, j, a, n - 1)
  use unreached_def(N, r, h, y)
  mention tp(N, r, k, j)
  mention tp(N, r, a, n)
  mention tp(N, r, a, n - 1)
  ensures M[p] == l && M[y] == y2 && M[q] == q2
  ensures tp(N, r, k, j) != p && tp(N, r, k, j) != q ==> M[tp(N, r, k, j)] == nd(N, r, k, j)
  ensures tp(N, r, k, j) != y
lemma split_at(N [int]int, r, h, a, n, m, y, l, y2, q2, k, j int)
  props C07, C11
  induction j
  noauto
  let p = tp(N, r, a, n)
  let x = N[p]
  let q = tp(N, r, a, n - 1)
  let c = ix(N, r, a, n - 1)
  let s = ky(x, m)
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2) && lev(j, h)
  use split_sep(N, r, h, a, n, m, 0)
  use split_nodes(N, r, h, a, n, m, y, l, y2, q2, k, j)
  use split_nodes(N, r, h, a, n, m, y, l, y2, q2, k, j - 1)
  use at_step(N, r, k, j)
  use at_step(M, r, k, j)
  use at_step(N, r, a, n)
  use at_top(N, r, k, j)
  use at_top(M, r, k, j)
  use W_level(N, r, h, k, j - 1, a, n)
  use W_level(N, r, h, k, j - 1, a, n - 1)
  use W_path(N, r, h, k, a, n, n - 1)
  use W_path(N, r, h, k, a, n - 1, n - 1)
  use W_node(N, r, h, a, n)
  use left_idx(x, l, m, k)
  use right_idx(x, y2, m, k)
  use parent_idx(N[q], q2, c, s, y, k)
  use idx_key(x, k, m)
  use idx_range(x, k)
  use idx_range(N[q], k)
  use W_key(N, r, h, a, n, m)
  use W_path(N, r, h, s, a, n, n - 1)
  use idx_key(N[q], k, c)
  use idx_key(N[q], k, c - 1)
  mention ch(q2, idx(q2, k))
  mention ch(l, idx(l, k))
  mention ch(y2, idx(y2, k))
  assert j > 0 && j < n ==> tp(M, r, k, j - 1) == tp(N, r, k, j - 1) && M[tp(N, r, k, j - 1)] == nd(N, r, k, j - 1)
  assert j > 0 && j < n ==> tp(M, r, k, j) == tp(N, r, k, j)
  assert j > 0 && j == n && tp(N, r, k, n - 1) != q ==> tp(M, r, k, j) == tp(N, r, k, j) && tp(N, r, k, n) != p
  assert j > 0 && j == n && tp(N, r, k, n - 1) == q ==> M[tp(M, r, k, n - 1)] == q2 && tp(M, r, k, j) == ch(q2, idx(q2, k))
  assert tp(N, r, k, n - 1) == q && j == n ==> (idx(N[q], k) == c <==> tp(N, r, k, n) == p)
  assert j == n && tp(N, r, k, n - 1) == q && idx(N[q], k) == c ==> tp(M, r, k, j) == (k >= s ? y : p)
  assert j == n && tp(N, r, k, n - 1) == q && idx(N[q], k) != c ==> tp(M, r, k, j) == tp(N, r, k, j)
  assert j == n ==> tp(M, r, k, j) == moved(N, r, a, n, m, y, k, j)
  assert j == n + 1 && tp(N, r, k, n) != p ==> tp(M, r, k, j) == tp(N, r, k, j)
  assert j == n + 1 && tp(N, r, k, n) == p && k < s ==> tp(M, r, k, n) == p && tp(M, r, k, j) == ch(l, idx(l, k)) && idx(l, k) == idx(x, k)
  assert j == n + 1 && tp(N, r, k, n) == p && k >= s ==> tp(M, r, k, n) == y && tp(M, r, k, j) == ch(y2, idx(y2, k)) && idx(y2, k) == idx(x, k) - m - 1
  assert j > n + 1 ==> tp(M, r, k, j) == tp(N, r, k, j)
  ensures tp(M, r, k, j) == moved(N, r, a, n, m, y, k, j)
fn movednd(N [int]int, r, a, n, m, k, j, l, y2, q2 int) int = j == n && tp(N, r, k, n) == tp(N, r, a, n) ? (k >= ky(nd(N, r, a, n), m) ? y2 : l) : j == n - 1 && tp(N, r, k, n - 1) == tp(N, r, a, n - 1) ? q2 : nd(N, r, k, j)
// after the split: page, node, place in the node
lemma split_all(N [int]int, r, h, a, n, m, y, l, y2, q2, k, j int)
  props C07, C11
  noauto
  let p = tp(N, r, a, n)
  let x = N[p]
  let q = tp(N, r, a, n - 1)
  let c = ix(N, r, a, n - 1)
  let s = ky(x, m)
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2) && lev(j, h)
  use split_sep(N, r, h, a, n, m, 0)
  use split_nodes(N, r, h, a, n, m, y, l, y2, q2, k, j)
  use split_at(N, r, h, a, n, m, y, l, y2, q2, k, j)
  use W_level(N, r, h, k, j, a, n)
  use W_level(N, r, h, k, j, a, n - 1)
  use W_node(N, r, h, k, j)
  use left_idx(x, l, m, k)
  use right_idx(x, y2, m, k)
  use parent_idx(N[q], q2, c, s, y, k)
  use idx_key(x, k, m)
  ensures [page] tp(M, r, k, j) == moved(N, r, a, n, m, y, k, j)
  ensures [node] nd(M, r, k, j) == movednd(N, r, a, n, m, k, j, l, y2, q2)
  ensures [sorted] srt(nd(M, r, k, j))
  ensures [idx] ix(M, r, k, j) == (j == n && tp(N, r, k, n) == p ? (k >= s ? ix(N, r, k, n) - (leaf(x) ? m : m + 1) : ix(N, r, k, n)) : j == n - 1 && tp(N, r, k, n - 1) == q ? ix(N, r, k, j) + (k >= s ? 1 : 0) : ix(N, r, k, j))
  ensures [side] j == n && tp(N, r, k, n) == p ==> (k >= s <==> ix(N, r, k, n) > m)
  ensures [same] tp(M, r, k, j) == p ==> j == n && tp(N, r, k, n) == p && k < s
  ensures [new] tp(M, r, k, j) == y ==> j == n && tp(N, r, k, n) == p && k >= s
lemma split_W1(N [int]int, r, h, a, n, m, y, l, y2, q2 int)
  props C07, C11
  noauto
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2)
  use W1_def(M, r, h)
  use forall k, j int {tp(M, r, k, j)} :: split_all(N, r, h, a, n, m, y, l, y2, q2, k, j)
  use forall k, j int {tp(M, r, k, j)} :: W_node(N, r, h, k, j)
  ensures W1(M, r, h)
lemma split_W2(N [int]int, r, h, a, n, m, y, l, y2, q2 int)
  props C07, C11
  noauto
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2)
  use W2_def(M, r, h)
  use W_def(N, r, h)
  use W2_def(N, r, h)
  use unreached_def(N, r, h, y)
  use forall k, j int {tp(M, r, k, j)} :: split_all(N, r, h, a, n, m, y, l, y2, q2, k, j)
  ensures W2(M, r, h)
lemma split_path(N [int]int, r, h, a, n, m, y, l, y2, q2, k, j, t, u int)
  props C07, C11
  noauto
  let p = tp(N, r, a, n)
  let x = N[p]
  let q = tp(N, r, a, n - 1)
  let s = ky(x, m)
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2) && lev(t, h) && lev(u, t) && tp(M, r, k, t) == tp(M, r, j, t)
  use split_all(N, r, h, a, n, m, y, l, y2, q2, k, t)
  use split_all(N, r, h, a, n, m, y, l, y2, q2, j, t)
  use split_all(N, r, h, a, n, m, y, l, y2, q2, k, u)
  use split_all(N, r, h, a, n, m, y, l, y2, q2, j, u)
  use unreached_def(N, r, h, y)
  mention tp(N, r, k, t)
  mention tp(N, r, j, t)
  assert tp(N, r, k, t) == tp(N, r, j, t)
  assert t == n && tp(N, r, k, n) == p ==> (k >= s <==> j >= s)
  use W_path(N, r, h, k, j, t, u)
  use W_path(N, r, h, k, j, t, n)
  use W_path(N, r, h, k, a, n, n - 1)
  use split_all(N, r, h, a, n, m, y, l, y2, q2, k, n)
  use split_all(N, r, h, a, n, m, y, l, y2, q2, j, n)
  assert tp(N, r, k, u) == tp(N, r, j, u) && (u < t ==> ix(N, r, k, u) == ix(N, r, j, u))
  assert t > n ==> tp(N, r, k, n) == tp(N, r, j, n) && ix(N, r, k, n) == ix(N, r, j, n)
  assert t > n && tp(N, r, k, n) == p ==> (k >= s <==> j >= s)
  assert u == n && u < t ==> tp(M, r, k, u) == tp(M, r, j, u) && ix(M, r, k, u) == ix(M, r, j, u)
  use split_sep(N, r, h, a, n, m, 0)
  let c = ix(N, r, a, n - 1)
  use idx_key(N[q], k, c)
  use idx_key(N[q], k, c - 1)
  use idx_key(N[q], j, c)
  use idx_key(N[q], j, c - 1)
  use at_step(N, r, k, n)
  use at_step(N, r, a, n)
  use idx_range(N[q], k)
  assert u == n - 1 && u < t && tp(N, r, k, u) == q && ix(N, r, k, u) != c ==> (k >= s <==> j >= s)
  assert u == n - 1 && u < t && tp(N, r, k, u) == q && ix(N, r, k, u) == c ==> tp(N, r, k, n) == p && tp(N, r, j, n) == p
  assert u == n - 1 && u < t && tp(N, r, k, u) == q ==> (k >= s <==> j >= s)
  ensures tp(M, r, k, u) == tp(M, r, j, u)
  ensures u < t ==> ix(M, r, k, u) == ix(M, r, j, u)
lemma split_W3(N [int]int, r, h, a, n, m, y, l, y2, q2 int)
  props C07, C11
  noauto
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2)
  use W3_def(M, r, h)
  use forall k, j, t, u int {tp(M, r, k, t), tp(M, r, j, t), tp(M, r, k, u)} :: split_path(N, r, h, a, n, m, y, l, y2, q2, k, j, t, u)
  ensures W3(M, r, h)
lemma split_W4(N [int]int, r, h, a, n, m, y, l, y2, q2 int)
  props C07, C11
  noauto
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2)
  use W4_def(M, r, h)
  use W_def(N, r, h)
  use W4_def(N, r, h)
  use W_key(N, r, h, a, n, m)
  use W_path(N, r, h, ky(nd(N, r, a, n), m), a, n, n - 1)
  use W_node(N, r, h, a, n)
  use srt_def(nd(N, r, a, n))
  mention tp(N, r, a, n - 1)
  use forall k, j int {tp(M, r, k, j)} :: split_all(N, r, h, a, n, m, y, l, y2, q2, k, j)
  ensures W4(M, r, h)
lemma split_below(N [int]int, r, h, a, n, m, y, l, y2, q2, k, j int)
  props C07, C11
  noauto
  let p = tp(N, r, a, n)
  let x = N[p]
  let q = tp(N, r, a, n - 1)
  let s = ky(x, m)
  let M = splitn(N, r, a, n, y, l, y2, q2)
  let z = ky(nd(M, r, k, j), 0) - 1
  requires splitok(N, r, h, a, n, m, y, l, y2, q2) && 0 < j && j < h
  use split_all(N, r, h, a, n, m, y, l, y2, q2, k, j)
  use split_all(N, r, h, a, n, m, y, l, y2, q2, z, j)
  use W_below(N, r, h, k, j)
  use W_below(N, r, h, a, n)
  use W_key(N, r, h, a, n, m)
  use W_key(N, r, h, a, n, m + 1)
  use W_key(N, r, h, a, n, 0)
  use W_node(N, r, h, a, n)
  use W_path(N, r, h, s, a, n, n - 1)
  use W_path(N, r, h, ky(x, 0), a, n, n - 1)
  use srt_def(x)
  mention ky(x, 0)
  mention ky(x, m)
  mention ky(x, m + 1)
  mention ky(y2, 0)
  mention ky(l, 0)
  mention ky(q2, 0)
  use conv(N, r, h, s, z, ky(x, m + 1), n)
  use conv(N, r, h, ky(x, 0), z, s, n - 1)
  ensures tp(M, r, z, j) == tp(M, r, k, j)
lemma split_W5(N [int]int, r, h, a, n, m, y, l, y2, q2 int)
  props C07, C11
  noauto
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2)
  use W5_def(M, r, h)
  use forall k, j int {tp(M, r, k, j)} :: split_below(N, r, h, a, n, m, y, l, y2, q2, k, j)
  ensures W5(M, r, h)
lemma split_W(N [int]int, r, h, a, n, m, y, l, y2, q2 int)
  props C07, C11
  noauto
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2)
  use W_def(M, r, h)
  use split_W1(N, r, h, a, n, m, y, l, y2, q2)
  use split_W2(N, r, h, a, n, m, y, l, y2, q2)
  use split_W3(N, r, h, a, n, m, y, l, y2, q2)
  use split_W4(N, r, h, a, n, m, y, l, y2, q2)
  use split_W5(N, r, h, a, n, m, y, l, y2, q2)
  ensures W(M, r, h)
lemma split_has(N [int]int, r, h, a, n, m, y, l, y2, q2, k int)
  props C07, C11
  noauto
  let p = tp(N, r, a, n)
  let x = N[p]
  let M = splitn(N, r, a, n, y, l, y2, q2)
  requires splitok(N, r, h, a, n, m, y, l, y2, q2)
  use W_height(N, r, h)
  use split_all(N, r, h, a, n, m, y, l, y2, q2, k, h)
  use W_node(N, r, h, k, h)
  use idx_range(x, k)
  use W_node(N, r, h, a, n)
  let i = ix(N, r, k, h)
  mention ky(l, i - 1)
  mention pl(l, i - 1)
  mention ky(y2, i - 1 - m)
  mention pl(y2, i - 1 - m)
  use idx_key(x, k, m)
  use idx_key(x, k, i - 1)
  ensures has(M, r, h, k) <==> has(N, r, h, k)
  ensures has(N, r, h, k) ==> val(M, r, h, k) == val(N, r, h, k)

// ---- order of the entries ----
// the number of keys below k
fn below(nd, k int) int = idx(nd, k - 1)
lemma has_key(N [int]int, r, h, k, i int)
  props C08, C11
  noauto
  requires W(N, r, h) && 0 <= i && i < nk(nd(N, r, k, h))
  use W_height(N, r, h)
  use W_node(N, r, h, k, h)
  use W_key(N, r, h, k, h, i)
  let x = ky(nd(N, r, k, h), i)
  use srt_def(nd(N, r, k, h))
  use idx_unique(nd(N, r, k, h), x, i + 1)
  mention ky(nd(N, r, k, h), i + 1)
  ensures has(N, r, h, x) && tp(N, r, x, h) == tp(N, r, k, h) && ix(N, r, x, h) == i + 1 && val(N, r, h, x) == pl(nd(N, r, k, h), i)
// the first key of k's leaf that is not below k is the first entry not below k
lemma first_geq(N [int]int, r, h, k, z int)
  props C08
  noauto
  let L = nd(N, r, k, h)
  let i = below(L, k)
  requires W(N, r, h) && i < nk(L) && has(N, r, h, z) && k <= z
  use W_height(N, r, h)
  use W_node(N, r, h, k, h)
  use idx_range(L, k - 1)
  use idx_key(L, k - 1, i)
  use has_key(N, r, h, k, i)
  let f = ky(L, i)
  use conv(N, r, h, k, z, f, h)
  let zi = ix(N, r, z, h) - 1
  use W_node(N, r, h, z, h)
  use idx_range(nd(N, r, z, h), z)
  use idx_key(L, k - 1, zi)
  use srt_def(L)
  mention ky(L, zi)
  ensures f <= z
// and the last one below k is the last entry below k
lemma last_lt(N [int]int, r, h, k, z int)
  props C08
  noauto
  let L = nd(N, r, k, h)
  let i = below(L, k)
  requires W(N, r, h) && i > 0 && has(N, r, h, z) && z < k
  use W_height(N, r, h)
  use W_node(N, r, h, k, h)
  use idx_range(L, k - 1)
  use idx_key(L, k - 1, i - 1)
  use has_key(N, r, h, k, i - 1)
  let f = ky(L, i - 1)
  use conv(N, r, h, f, z, k, h)
  let zi = ix(N, r, z, h) - 1
  use W_node(N, r, h, z, h)
  use idx_range(nd(N, r, z, h), z)
  use idx_key(L, k - 1, zi)
  use srt_def(L)
  mention ky(L, zi)
  ensures z <= f
// along levels from t on k takes the last child
hidden fn rightmost(N [int]int, r, k, t, h int) bool = forall j int {tp(N, r, k, j)} :: t <= j && j < h ==> ix(N, r, k, j) == nk(nd(N, r, k, j))
hidden fn leftmost(N [int]int, r, k, t, h int) bool = forall j int {tp(N, r, k, j)} :: t <= j && j < h ==> ix(N, r, k, j) == 0
lemma rightmost_def(N [int]int, r, k, t, h int)
  props C08
  noauto
  ensures rightmost(N, r, k, t, h) <==> (forall j int {tp(N, r, k, j)} :: t <= j && j < h ==> ix(N, r, k, j) == nk(nd(N, r, k, j)))
lemma leftmost_def(N [int]int, r, k, t, h int)
  props C08
  noauto
  ensures leftmost(N, r, k, t, h) <==> (forall j int {tp(N, r, k, j)} :: t <= j && j < h ==> ix(N, r, k, j) == 0)
lemma right_stay(N [int]int, r, h, c, z, t, j int)
  props C08
  induction j
  noauto
  requires W(N, r, h) && 0 <= t && t <= j && j <= h && c <= z && tp(N, r, z, t) == tp(N, r, c, t) && rightmost(N, r, c, t, h)
  use rightmost_def(N, r, c, t, h)
  use at_step(N, r, c, j)
  use at_step(N, r, z, j)
  mention tp(N, r, c, j - 1)
  use W_node(N, r, h, c, j - 1)
  use idx_mono(nd(N, r, c, j - 1), c, z)
  use idx_range(nd(N, r, c, j - 1), z)
  ensures tp(N, r, z, j) == tp(N, r, c, j)
lemma left_stay(N [int]int, r, h, c, z, t, j int)
  props C08
  induction j
  noauto
  requires W(N, r, h) && 0 <= t && t <= j && j <= h && z <= c && tp(N, r, z, t) == tp(N, r, c, t) && leftmost(N, r, c, t, h)
  use leftmost_def(N, r, c, t, h)
  use at_step(N, r, c, j)
  use at_step(N, r, z, j)
  mention tp(N, r, c, j - 1)
  use W_node(N, r, h, c, j - 1)
  use idx_mono(nd(N, r, c, j - 1), z, c)
  use idx_range(nd(N, r, c, j - 1), z)
  ensures tp(N, r, z, j) == tp(N, r, c, j)
// the key that separates k's child of the node at level t from the next child
fn nextsep(N [int]int, r, k, t int) int = ky(nd(N, r, k, t), ix(N, r, k, t))
lemma next_path(N [int]int, r, h, k, t, j int)
  props C08
  noauto
  let s = nextsep(N, r, k, t)
  requires W(N, r, h) && 0 <= t && t < h && ix(N, r, k, t) < nk(nd(N, r, k, t)) && t < j && j < h
  use W_node(N, r, h, k, t)
  use idx_range(nd(N, r, k, t), k)
  let i = ix(N, r, k, t)
  use W_key(N, r, h, k, t, i)
  use idx_unique(nd(N, r, k, t), s, i + 1)
  use srt_def(nd(N, r, k, t))
  mention ky(nd(N, r, k, t), i + 1)
  let q = nd(N, r, s, j)
  let x = ky(q, 0)
  use W_node(N, r, h, s, j)
  use W_below(N, r, h, s, j)
  use W_path(N, r, h, x - 1, s, j, t)
  use idx_key(nd(N, r, k, t), x - 1, i)
  use idx_key(q, s, 0)
  use idx_range(q, s)
  assert ix(N, r, s, t) == i + 1
  assert s <= x - 1
  ensures ix(N, r, s, j) == 0
lemma next_at(N [int]int, r, h, k, t int)
  props C08
  noauto
  let s = nextsep(N, r, k, t)
  requires W(N, r, h) && 0 <= t && t < h && ix(N, r, k, t) < nk(nd(N, r, k, t))
  use W_node(N, r, h, k, t)
  use idx_range(nd(N, r, k, t), k)
  let i = ix(N, r, k, t)
  use W_key(N, r, h, k, t, i)
  use idx_unique(nd(N, r, k, t), s, i + 1)
  use idx_key(nd(N, r, k, t), k, i)
  use srt_def(nd(N, r, k, t))
  mention ky(nd(N, r, k, t), i + 1)
  ensures tp(N, r, s, t) == tp(N, r, k, t) && ix(N, r, s, t) == i + 1 && k < s
// the first entry of the next leaf
lemma next_leaf(N [int]int, r, h, k, t int)
  props C08
  noauto
  let s = nextsep(N, r, k, t)
  let L = nd(N, r, s, h)
  let f = ky(L, 0)
  requires W(N, r, h) && 0 <= t && t < h && ix(N, r, k, t) < nk(nd(N, r, k, t))
  use next_at(N, r, h, k, t)
  use W_node(N, r, h, s, h)
  use has_key(N, r, h, s, 0)
  use W_path(N, r, h, f, s, h, t)
  use W_node(N, r, h, k, t)
  use idx_key(nd(N, r, k, t), f, ix(N, r, k, t))
  use idx_range(nd(N, r, k, t), k)
  assert ix(N, r, f, t) == ix(N, r, s, t)
  assert ix(N, r, f, t) == ix(N, r, k, t) + 1
  use idx_key(nd(N, r, k, t), f, ix(N, r, k, t))
  ensures has(N, r, h, f) && s <= f && k < f && tp(N, r, f, h) == tp(N, r, s, h) && ix(N, r, f, h) == 1 && val(N, r, h, f) == pl(L, 0) && nk(L) >= 1 && leaf(L)
lemma next_is_next(N [int]int, r, h, k, t, z int)
  props C08
  noauto
  let s = nextsep(N, r, k, t)
  let L = nd(N, r, s, h)
  let f = ky(L, 0)
  requires W(N, r, h) && 0 <= t && t < h && ix(N, r, k, t) < nk(nd(N, r, k, t)) && rightmost(N, r, k, t + 1, h)
  requires below(nd(N, r, k, h), k) == nk(nd(N, r, k, h)) || ix(N, r, k, h) == nk(nd(N, r, k, h))
  requires has(N, r, h, z) && z > k
  use next_at(N, r, h, k, t)
  use next_leaf(N, r, h, k, t)
  use W_path(N, r, h, f, s, h, t)
  use conv(N, r, h, k, z, f, t)
  use conv(N, r, h, s, z, f, h)
  let zi = ix(N, r, z, h) - 1
  use W_node(N, r, h, z, h)
  use W_node(N, r, h, k, h)
  use W_node(N, r, h, k, t)
  use idx_range(nd(N, r, z, h), z)
  use srt_def(nd(N, r, z, h))
  mention ky(L, zi)
  assert z < f ==> z < s
  let i = ix(N, r, k, t)
  use idx_range(nd(N, r, k, t), k)
  use idx_mono(nd(N, r, k, t), k, z)
  use idx_key(nd(N, r, k, t), z, i)
  assert z < f ==> ix(N, r, z, t) == i
  use at_step(N, r, z, t + 1)
  use at_step(N, r, k, t + 1)
  use right_stay(N, r, h, k, z, t + 1, h)
  assert z < f ==> tp(N, r, z, h) == tp(N, r, k, h)
  use idx_key(nd(N, r, k, h), k, zi)
  use idx_key(nd(N, r, k, h), k - 1, zi)
  ensures f <= z
lemma no_next(N [int]int, r, h, k, z int)
  props C08
  noauto
  requires W(N, r, h) && rightmost(N, r, k, 0, h)
  requires below(nd(N, r, k, h), k) == nk(nd(N, r, k, h)) || ix(N, r, k, h) == nk(nd(N, r, k, h))
  requires has(N, r, h, z)
  use W_height(N, r, h)
  use at_top(N, r, k, 0)
  use at_top(N, r, z, 0)
  use right_stay(N, r, h, k, z, 0, h)
  let zi = ix(N, r, z, h) - 1
  use W_node(N, r, h, z, h)
  use W_node(N, r, h, k, h)
  use idx_range(nd(N, r, z, h), z)
  use idx_key(nd(N, r, k, h), k, zi)
  use idx_key(nd(N, r, k, h), k - 1, zi)
  ensures z <= k
// the key before the one that separates k's child from the previous child
fn prevsep(N [int]int, r, k, t int) int = ky(nd(N, r, k, t), ix(N, r, k, t) - 1) - 1
lemma prev_at(N [int]int, r, h, k, t int)
  props C08
  noauto
  let s = prevsep(N, r, k, t)
  requires W(N, r, h) && 0 <= t && t < h && ix(N, r, k, t) > 0
  let q = nd(N, r, k, t)
  let i = ix(N, r, k, t)
  use W_node(N, r, h, k, t)
  use idx_range(q, k)
  use W_key(N, r, h, k, t, i - 1)
  use W_key(N, r, h, k, t, i - 2)
  use W_reach0(N, r, h, k, t)
  use conv(N, r, h, ky(q, i - 2), s, ky(q, i - 1), t)
  use idx_unique(q, s, i - 1)
  use idx_key(q, k, i - 1)
  use srt_def(q)
  mention ky(q, i - 2)
  mention ky(q, i - 1)
  ensures tp(N, r, s, t) == tp(N, r, k, t) && ix(N, r, s, t) == i - 1 && s < k
lemma prev_path(N [int]int, r, h, k, t, j int)
  props C08
  noauto
  let s = prevsep(N, r, k, t)
  requires W(N, r, h) && 0 <= t && t < h && ix(N, r, k, t) > 0 && t < j && j <= h
  use prev_at(N, r, h, k, t)
  let q = nd(N, r, s, j)
  let x = ky(q, nk(q) - 1)
  use W_node(N, r, h, s, j)
  use W_node(N, r, h, k, t)
  use W_key(N, r, h, s, j, nk(q) - 1)
  use W_path(N, r, h, x, s, j, t)
  use idx_key(nd(N, r, k, t), x, ix(N, r, k, t) - 1)
  use idx_range(nd(N, r, k, t), k)
  use idx_key(q, s, nk(q) - 1)
  use idx_range(q, s)
  assert x <= s
  ensures ix(N, r, s, j) == nk(q) && nk(q) >= 1 && (j == h ==> leaf(q))
lemma prev_is_prev(N [int]int, r, h, k, t, z int)
  props C08
  noauto
  let s = prevsep(N, r, k, t)
  let L = nd(N, r, s, h)
  let e = ky(L, nk(L) - 1)
  requires W(N, r, h) && 0 <= t && t < h && ix(N, r, k, t) > 0 && leftmost(N, r, k, t + 1, h)
  requires below(nd(N, r, k, h), k) == 0
  requires has(N, r, h, z) && z < k
  use prev_at(N, r, h, k, t)
  use prev_path(N, r, h, k, t, h)
  use has_key(N, r, h, s, nk(L) - 1)
  use W_path(N, r, h, e, s, h, t)
  use W_node(N, r, h, s, h)
  use idx_key(L, s, nk(L) - 1)
  use conv(N, r, h, e, z, k, t)
  use conv(N, r, h, e, z, s, h)
  let zi = ix(N, r, z, h) - 1
  use W_node(N, r, h, z, h)
  use W_node(N, r, h, k, h)
  use W_node(N, r, h, k, t)
  use idx_range(nd(N, r, z, h), z)
  use srt_def(nd(N, r, z, h))
  mention ky(L, zi)
  assert e <= s
  assert z > e ==> z > s
  let i = ix(N, r, k, t)
  use idx_mono(nd(N, r, k, t), z, k)
  use idx_key(nd(N, r, k, t), z, i - 1)
  use idx_range(nd(N, r, k, t), k)
  assert z > e ==> ix(N, r, z, t) == i
  use at_step(N, r, z, t + 1)
  use at_step(N, r, k, t + 1)
  use left_stay(N, r, h, k, z, t + 1, h)
  assert z > e ==> tp(N, r, z, h) == tp(N, r, k, h)
  use idx_key(nd(N, r, k, h), k - 1, zi)
  ensures z <= e
lemma prev_leaf(N [int]int, r, h, k, t int)
  props C08
  noauto
  let s = prevsep(N, r, k, t)
  let L = nd(N, r, s, h)
  let e = ky(L, nk(L) - 1)
  requires W(N, r, h) && 0 <= t && t < h && ix(N, r, k, t) > 0
  use prev_at(N, r, h, k, t)
  use prev_path(N, r, h, k, t, h)
  use has_key(N, r, h, s, nk(L) - 1)
  use W_node(N, r, h, s, h)
  use idx_key(L, s, nk(L) - 1)
  ensures has(N, r, h, e) && e < k && tp(N, r, e, h) == tp(N, r, s, h) && ix(N, r, e, h) == nk(L) && val(N, r, h, e) == pl(L, nk(L) - 1) && nk(L) >= 1 && leaf(L)
lemma no_prev(N [int]int, r, h, k, z int)
  props C08
  noauto
  requires W(N, r, h) && leftmost(N, r, k, 0, h) && below(nd(N, r, k, h), k) == 0 && has(N, r, h, z)
  use W_height(N, r, h)
  use at_top(N, r, k, 0)
  use at_top(N, r, z, 0)
  use left_stay(N, r, h, k, z, 0, h)
  let zi = ix(N, r, z, h) - 1
  use W_node(N, r, h, z, h)
  use W_node(N, r, h, k, h)
  use idx_range(nd(N, r, z, h), z)
  use idx_key(nd(N, r, k, h), k - 1, zi)
  ensures z >= k
