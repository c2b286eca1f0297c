package bits
extern bits.Len(x) (n int)
  ensures n == bitlen(x)

package maps
extern maps.Copy(dst, src)
  modifies mapof(dst)
  ensures forall k int {mapdom(dst)[k]} :: mapdom(dst)[k] <==> old(mapdom(dst))[k] || mapdom(src)[k]
  ensures forall k int {mapval(dst)[k]} :: mapdom(src)[k] ==> mapval(dst)[k] == mapval(src)[k]

package hnsw
nonzero hnsw.EmptyHeapError
// The levels of the tree alternate: even levels are ordered towards the minimum, odd
// ones towards the maximum. An item is ordered against its children and grandchildren.
hidden fn mn(i int) bool = bitlen(i + 1) % 2 == 1
lemma mn_def(i int)
  props C12
  auto
  noauto
  pattern mn(i)
  ensures mn(i) <==> bitlen(i + 1) % 2 == 1
fn child(p, c int) bool = c == 2 * p + 1 || c == 2 * p + 2
fn low(p, c int) bool = child(p, c) || (4 * p + 3 <= c && c <= 4 * p + 6)
lemma mn_low(p, c int)
  props C12
  auto
  noauto
  pattern mn(p), mn(c)
  requires 0 <= p && c < 4611686018427387904 && low(p, c)
  use mn_def(p)
  use mn_def(c)
  ensures mn(c) <==> (child(p, c) ? !mn(p) : mn(p))

// the distances of the items, as order keys
fn keys(E [int]int, M [int]Item, o int) [int]int
axiom keys_def: forall E [int]int, M [int]Item, o, k int {keys(E, M, o)[k]} :: keys(E, M, o)[k] == ford32(M[E[o + k]].dist)
fn dk(d DistHeap) [int]int = keys(elems(d.items), H(Item), sloff(d.items))

fn ord(K [int]int, p, c int) bool = mn(p) ? K[p] <= K[c] : K[p] >= K[c]
fn ordr(K [int]int, p, c int) bool = mn(p) ? K[p] >= K[c] : K[p] <= K[c]
// all orderings among the first n items, except those below item x
hidden fn hp(K [int]int, n, x int) bool = forall p, c int {K[p], K[c]} :: 0 <= p && low(p, c) && c < n && p != x ==> ord(K, p, c)
// what is above x is in order with what is below x
hidden fn skip(K [int]int, n, x int) bool = forall a, c int {K[a], K[c]} :: 0 <= a && low(a, x) && low(x, c) && c < n ==> ord(K, a, c)
// K2 is K with i and m exchanged
fn swapped(K, J [int]int, i, m int) bool = forall k int {J[k]} :: J[k] == (k == i ? K[m] : k == m ? K[i] : K[k])
// m is the best (least or greatest, by the level of i) of i and c
fn best(K [int]int, i, m, c int) bool = mn(i) ? K[m] <= K[c] : K[m] >= K[c]
fn bestall(K [int]int, n, i, m int) bool = forall c int {K[c]} :: low(i, c) && c < n ==> best(K, i, m, c)

lemma hp_def(K [int]int, n, x int)
  props C12
  noauto
  ensures hp(K, n, x) <==> (forall p, c int {K[p], K[c]} :: 0 <= p && low(p, c) && c < n && p != x ==> ord(K, p, c))
lemma skip_def(K [int]int, n, x int)
  props C12
  noauto
  ensures skip(K, n, x) <==> (forall p, c int {K[p], K[c]} :: 0 <= p && low(p, x) && low(x, c) && c < n ==> ord(K, p, c))
fn sane(i, n int) bool = 0 <= i && i <= n && n < 1099511627776
lemma down_stop(K [int]int, n, i int)
  props C12
  requires sane(i, n) && hp(K, n, i) && bestall(K, n, i, i)
  use hp_def(K, n, i)
  use hp_def(K, n, 0 - 1)
  ensures hp(K, n, 0 - 1)
lemma down_child(K, J [int]int, n, i, m int)
  props C12
  requires sane(i, n) && hp(K, n, i) && skip(K, n, i) && bestall(K, n, i, m) && best(K, i, m, i) && child(i, m) && m < n && swapped(K, J, i, m)
  use hp_def(K, n, i)
  use skip_def(K, n, i)
  use hp_def(J, n, 0 - 1)
  ensures hp(J, n, 0 - 1)
// after exchanging i with its grandchild m below child p: all in order except below m
// and possibly between p and m
hidden fn mid(J [int]int, n, m, p int) bool = (forall a, c int {J[a], J[c]} :: 0 <= a && low(a, c) && c < n && a != m && !(a == p && c == m) ==> ord(J, a, c))
  && (forall a, c int {J[a], J[c]} :: 0 <= a && low(a, m) && low(m, c) && c < n ==> ord(J, a, c))
  && (forall a int {J[a]} :: 0 <= a && low(a, p) ==> ord(J, a, m))
lemma mid_def(J [int]int, n, m, p int)
  props C12
  noauto
  ensures mid(J, n, m, p) <==> (forall a, c int {J[a], J[c]} :: 0 <= a && low(a, c) && c < n && a != m && !(a == p && c == m) ==> ord(J, a, c))
  && (forall a, c int {J[a], J[c]} :: 0 <= a && low(a, m) && low(m, c) && c < n ==> ord(J, a, c))
  && (forall a int {J[a]} :: 0 <= a && low(a, p) ==> ord(J, a, m))
lemma down_grand(K, J [int]int, n, i, m, p int)
  props C12
  requires sane(i, n) && hp(K, n, i) && skip(K, n, i) && bestall(K, n, i, m) && best(K, i, m, i) && low(i, m) && child(i, p) && child(p, m) && m < n && swapped(K, J, i, m)
  use hp_def(K, n, i)
  use skip_def(K, n, i)
  use mid_def(J, n, m, p)
  assert forall c int {J[c]} :: low(m, c) && !child(m, c) && c < n ==> ord(K, p, (c - 1) / 2) && ord(K, (c - 1) / 2, c)
  ensures mid(J, n, m, p)
lemma mid_stop(J [int]int, n, m, p int)
  props C12
  requires sane(m, n) && mid(J, n, m, p) && ord(J, p, m)
  use mid_def(J, n, m, p)
  use hp_def(J, n, m)
  use skip_def(J, n, m)
  ensures hp(J, n, m) && skip(J, n, m)
lemma mid_swap(J, L [int]int, n, m, p int)
  props C12
  requires sane(m, n) && 0 <= p && child(p, m) && m < n && mid(J, n, m, p) && swapped(J, L, m, p) && ordr(J, p, m)
  use mid_def(J, n, m, p)
  use hp_def(L, n, m)
  use skip_def(L, n, m)
  ensures hp(L, n, m) && skip(L, n, m)

// while item i0, possibly out of order with everything, moves up to i
hidden fn upinv(K [int]int, n, i0, i int) bool =
  (forall p, c int {K[p], K[c]} :: 0 <= p && low(p, c) && c < n && p != i0 && !(c == i && 4 * p + 3 <= i) ==> ord(K, p, c))
  && (forall p, c int {K[p], K[c]} :: 0 <= p && 4 * p + 3 <= i && i <= 4 * p + 6 && low(i, c) && c < n ==> ord(K, p, c))
  && skip(K, n, i0)
  && (i != i0 ==> forall c int {K[c]} :: low(i0, c) && c < n ==> ((mn(i) <==> mn(i0)) ? ord(K, i0, c) : mn(i0) ? K[i0] >= K[c] : K[i0] <= K[c]))
lemma upinv_def(K [int]int, n, i0, i int)
  props C12
  noauto
  ensures upinv(K, n, i0, i) <==>
  (forall p, c int {K[p], K[c]} :: 0 <= p && low(p, c) && c < n && p != i0 && !(c == i && 4 * p + 3 <= i) ==> ord(K, p, c))
  && (forall p, c int {K[p], K[c]} :: 0 <= p && 4 * p + 3 <= i && i <= 4 * p + 6 && low(i, c) && c < n ==> ord(K, p, c))
  && skip(K, n, i0)
  && (i != i0 ==> forall c int {K[c]} :: low(i0, c) && c < n ==> ((mn(i) <==> mn(i0)) ? ord(K, i0, c) : mn(i0) ? K[i0] >= K[c] : K[i0] <= K[c]))
// all orderings except those of item x, either way
hidden fn hpx(K [int]int, n, x int) bool = forall p, c int {K[p], K[c]} :: 0 <= p && low(p, c) && c < n && p != x && c != x ==> ord(K, p, c)
lemma hpx_def(K [int]int, n, x int)
  props C12
  noauto
  ensures hpx(K, n, x) <==> (forall p, c int {K[p], K[c]} :: 0 <= p && low(p, c) && c < n && p != x && c != x ==> ord(K, p, c))
lemma up_stay(K [int]int, n, i int)
  props C12
  requires sane(i, n) && i < n && hpx(K, n, i) && skip(K, n, i) && (i == 0 || ord(K, (i - 1) / 2, i))
  use hpx_def(K, n, i)
  use skip_def(K, n, i)
  use upinv_def(K, n, i, i)
  ensures upinv(K, n, i, i)
lemma up_start(K, J [int]int, n, i, p int)
  props C12
  requires sane(i, n) && i < n && 0 <= p && child(p, i) && hpx(K, n, i) && skip(K, n, i) && ordr(K, p, i) && swapped(K, J, i, p)
  use hpx_def(K, n, i)
  use skip_def(K, n, i)
  use skip_def(J, n, i)
  use upinv_def(J, n, i, p)
  ensures upinv(J, n, i, p)
lemma up_stop(K [int]int, n, i0, i int)
  props C12
  requires sane(i, n) && upinv(K, n, i0, i) && (i <= 2 || ord(K, ((i - 1) / 2 - 1) / 2, i))
  use upinv_def(K, n, i0, i)
  use hp_def(K, n, i0)
  ensures hp(K, n, i0) && skip(K, n, i0)
lemma up_step(K, J [int]int, n, i0, i, g int)
  props C12
  requires sane(i0, n) && i0 < n && 0 <= g && 4 * g + 3 <= i && i <= 4 * g + 6 && i <= i0 && upinv(K, n, i0, i) && (mn(i) ? K[i] <= K[g] : K[i] >= K[g]) && swapped(K, J, i, g)
  use upinv_def(K, n, i0, i)
  use skip_def(K, n, i0)
  use skip_def(J, n, i0)
  use upinv_def(J, n, i0, g)
  ensures upinv(J, n, i0, g)
fn wf(d DistHeap) bool = d.visited != 0
  && (forall k int {d.items[k]} :: 0 <= k && k < len(d.items) ==> d.items[k] != 0 && alive(d.items[k]) && !isnan32(d.items[k].dist)
        && mapdom(d.visited)[d.items[k].id] && mapval(d.visited)[d.items[k].id] == k)
  && (forall id int {mapdom(d.visited)[id]} {mapval(d.visited)[id]} :: mapdom(d.visited)[id] ==> 0 <= mapval(d.visited)[id] && mapval(d.visited)[id] < len(d.items) && d.items[mapval(d.visited)[id]].id == id)

func isMinLevel(i) (r bool)
  props C12
  requires 0 <= i && i < 4611686018427387904
  ensures [level] r <==> mn(i)
  at entry use mn_def(i)

func (DistHeap).Less(d, i, j) (r bool)
  props C12
  requires 0 <= i && i < len(d.items) && 0 <= j && j < len(d.items) && d.items[i] != 0 && d.items[j] != 0
  ensures [less] r <==> flt32(d.items[i].dist, d.items[j].dist)

func (DistHeap).Swap(d, i, j)
  props C12
  requires wf(d) && 0 <= i && i < len(d.items) && 0 <= j && j < len(d.items)
  modifies elems(d.items), mapof(d.visited)
  ensures [wf] wf(d)
  ensures [swap] d.items[i] == old(d.items[j]) && d.items[j] == old(d.items[i])
  ensures [rest] forall k int {d.items[k]} :: k != i && k != j ==> d.items[k] == old(d.items[k])
  ensures [keys] swapped(old(dk(d)), dk(d), i, j)
  ensures [dom] mapdom(d.visited) == old(mapdom(d.visited))
  ensures [kept] forall id int {mapval(d.visited)[id]} :: mapdom(d.visited)[id] ==> d.items[mapval(d.visited)[id]] == old(d.items[mapval(d.visited)[id]])


func (*DistHeap).down(d, i, n) (r bool)
  props C12
  merge
  requires wf(*d) && 0 <= i && i <= n && n <= len(d.items) && len(d.items) < 1099511627776
  requires hp(dk(*d), n, i) && skip(dk(*d), n, i)
  modifies elems(d.items), mapof(d.visited)
  ensures [wf] wf(*d)
  ensures [order] hp(dk(*d), n, 0 - 1)
  ensures [rest] forall k int {d.items[k]} :: k >= n ==> d.items[k] == old(d.items[k])
  ensures [dom] mapdom(d.visited) == old(mapdom(d.visited))
  ensures [kept] forall id int {mapval(d.visited)[id]} :: mapdom(d.visited)[id] ==> d.items[mapval(d.visited)[id]] == old(d.items[mapval(d.visited)[id]])
  at beforecall Swap#1 assert bestall(dk(*d), n, i, m)
  at aftercall Swap#1 use down_child(pre(dk(*d)), dk(*d), n, i, m)
  at aftercall Swap#1 use down_grand(pre(dk(*d)), dk(*d), n, i, m, (m - 1) / 2)
  at aftercall Swap#1 use mid_stop(dk(*d), n, m, (m - 1) / 2)
  at beforecall Swap#2 assert child((m - 1) / 2, m) && mid(dk(*d), n, m, (m - 1) / 2)
  at beforecall Swap#2 assert ordr(dk(*d), (m - 1) / 2, m)
  at aftercall Swap#2 use mid_swap(pre(dk(*d)), dk(*d), n, m, (m - 1) / 2)
  at return use down_stop(dk(*d), n, now(i))
  loop 0
    modifies elems(d.items), mapof(d.visited)
    invariant wf(*d) && 0 <= i && i <= n && (min <==> mn(i))
    invariant hp(dk(*d), n, i) && skip(dk(*d), n, i)
    invariant mapdom(d.visited) == old(mapdom(d.visited))
    invariant forall k int {d.items[k]} :: k >= n ==> d.items[k] == old(d.items[k])
    invariant forall id int {mapval(d.visited)[id]} :: mapdom(d.visited)[id] ==> d.items[mapval(d.visited)[id]] == old(d.items[mapval(d.visited)[id]])
  loop 1
    modifies nothing
    invariant 4 * i + 3 <= g && g <= 4 * i + 7 && 2 * i + 1 < n && m < n
    invariant m == i || child(i, m) || (4 * i + 3 <= m && m < g)
    invariant best(dk(*d), i, m, i) && best(dk(*d), i, m, 2 * i + 1) && (2 * i + 2 < n ==> best(dk(*d), i, m, 2 * i + 2))
    invariant forall c int {dk(*d)[c]} :: 4 * i + 3 <= c && c < g && c < n ==> best(dk(*d), i, m, c)

func (*DistHeap).up(d, i)
  props C12
  merge
  requires wf(*d) && 0 <= i && i < len(d.items) && len(d.items) < 1099511627776
  requires hpx(dk(*d), len(d.items), i) && skip(dk(*d), len(d.items), i)
  modifies elems(d.items), mapof(d.visited)
  let i0 = i
  ensures [wf] wf(*d)
  ensures [order] hp(dk(*d), len(d.items), i0) && skip(dk(*d), len(d.items), i0)
  ensures [dom] mapdom(d.visited) == old(mapdom(d.visited))
  ensures [kept] forall id int {mapval(d.visited)[id]} :: mapdom(d.visited)[id] ==> d.items[mapval(d.visited)[id]] == old(d.items[mapval(d.visited)[id]])
  at entry use up_stay(dk(*d), len(d.items), i)
  at aftercall Swap use up_start(pre(dk(*d)), dk(*d), len(d.items), i0, (i0 - 1) / 2)
  at aftercall Swap use up_step(pre(dk(*d)), dk(*d), len(d.items), i0, i, ((i - 1) / 2 - 1) / 2)
  at return use up_stop(dk(*d), len(d.items), i0, now(i))
  loop 0
    modifies elems(d.items), mapof(d.visited)
    invariant wf(*d) && 0 <= i && i <= i0 && (min <==> mn(i))
    invariant mapdom(d.visited) == old(mapdom(d.visited))
    invariant forall id int {mapval(d.visited)[id]} :: mapdom(d.visited)[id] ==> d.items[mapval(d.visited)[id]] == old(d.items[mapval(d.visited)[id]])
    invariant upinv(dk(*d), len(d.items), i0, i)

// ---- the queue operations ----
lemma hp_frame(K, J [int]int, n, x int)
  props C12
  requires hp(K, n, x) && n < 1099511627776 && forall k int {J[k]} :: 0 <= k && k < n ==> J[k] == K[k]
  use hp_def(K, n, x)
  use hp_def(J, n, x)
  ensures hp(J, n, x)
// the root is least; one of its children, if any, is greatest
lemma root_min(K [int]int, n, k int)
  props C12
  induction k
  requires hp(K, n, 0 - 1) && 0 <= k && k < n && n < 1099511627776
  pattern hp(K, n, 0 - 1), K[k]
  use hp_def(K, n, 0 - 1)
  mention K[(k - 1) / 2]
  mention K[((k - 1) / 2 - 1) / 2]
  assert low(0, 1) && low(0, 2)
  assert mn(0)
  ensures K[0] <= K[k]
lemma root_max(K [int]int, n, k int)
  props C12
  induction k
  requires hp(K, n, 0 - 1) && 1 <= k && k < n && n < 1099511627776
  pattern hp(K, n, 0 - 1), K[k]
  use hp_def(K, n, 0 - 1)
  mention K[(k - 1) / 2]
  mention K[((k - 1) / 2 - 1) / 2]
  mention mn(0)
  mention K[1]
  mention K[2]
  ensures K[k] <= K[1] || n > 2 && K[k] <= K[2]
lemma push_last(K, J [int]int, n int)
  props C12
  requires hp(K, n, 0 - 1) && 0 <= n && n < 1099511627776 && forall k int {J[k]} :: 0 <= k && k < n ==> J[k] == K[k]
  use hp_def(K, n, 0 - 1)
  use hpx_def(J, n + 1, n)
  use skip_def(J, n + 1, n)
  ensures hpx(J, n + 1, n) && skip(J, n + 1, n)
lemma last_done(K [int]int, n int)
  props C12
  requires hp(K, n, n - 1) && 0 < n && n < 1099511627776
  use hp_def(K, n, n - 1)
  use hp_def(K, n, 0 - 1)
  ensures hp(K, n, 0 - 1)
lemma changed(K, J [int]int, n, i int)
  props C12
  requires hp(K, n, 0 - 1) && 0 <= i && i < n && n < 1099511627776 && forall k int {J[k]} :: 0 <= k && k < n && k != i ==> J[k] == K[k]
  use hp_def(K, n, 0 - 1)
  use hpx_def(J, n, i)
  use skip_def(J, n, i)
  mention K[i]
  assert i > 0 ==> forall c int {J[c]} :: low(i, c) && !child(i, c) && c < n ==> ord(K, (i - 1) / 2, (c - 1) / 2) && ord(K, (c - 1) / 2, c)
  ensures hpx(J, n, i) && skip(J, n, i)
lemma pop_root(K, J [int]int, n int)
  props C12
  requires hp(K, n + 1, 0 - 1) && 0 <= n && n < 1099511627776 && swapped(K, J, 0, n)
  use hp_def(K, n + 1, 0 - 1)
  use hp_def(J, n, 0)
  use skip_def(J, n, 0)
  ensures hp(J, n, 0) && skip(J, n, 0)
lemma pop_top(K, J [int]int, n, i int)
  props C12
  requires hp(K, n + 1, 0 - 1) && 0 <= i && i <= 2 && i <= n && n < 1099511627775 && swapped(K, J, i, n)
  use hp_def(K, n + 1, 0 - 1)
  use hp_def(J, n, i)
  use skip_def(J, n, i)
  use forall k int {K[k]} :: root_min(K, n + 1, k)
  assert mn(0)
  ensures hp(J, n, i) && skip(J, n, i)

fn member(d DistHeap, id int) bool = mapdom(d.visited)[id]
fn item(d DistHeap, id int) *Item = d.items[mapval(d.visited)[id]]
fn dq(d DistHeap) bool = wf(d) && hp(dk(d), len(d.items), 0 - 1) && len(d.items) < 1000000000000

func (DistHeap).Len(d) (r int)
  props C12
  ensures r == len(d.items)
func (DistHeap).IsEmpty(d) (r bool)
  props C12
  ensures r <==> len(d.items) == 0

func NewDistHeap() (r *DistHeap)
  props C12
  ensures [empty] r != 0 && fresh(r) && dq(*r) && forall id int {member(*r, id)} :: !member(*r, id)
  ensures len(r.items) == 0
  at return use hp_def(dk(*r), 0, 0 - 1)

func (*DistHeap).Push(d, x)
  props C12
  requires d != 0 && len(d.items) < 1099511627776
  modifies elems(d.items), d.items
  ensures fresh(d.items) || arr(d.items) == old(arr(d.items)) && sloff(d.items) == old(sloff(d.items))
  ensures 0 <= old(len(d.items)) && len(d.items) == old(len(d.items)) + 1 && d.items[len(d.items) - 1] == x && d.visited == old(d.visited)
  ensures forall k int {d.items[k]} {old(d.items[k])} :: 0 <= k && k < len(d.items) - 1 ==> d.items[k] == old(d.items[k])

func (*DistHeap).Pop(d) (r *Item)
  props C12
  requires d != 0 && wf(*d) && len(d.items) > 0
  modifies d.items, mapof(d.visited)
  ensures [wf] wf(*d)
  ensures [last] r == old(d.items[len(d.items) - 1])
  ensures [rest] len(d.items) == old(len(d.items)) - 1 && dk(*d) == old(dk(*d)) && d.visited == old(d.visited)
  ensures [dom] mapdom(d.visited) == old(mapdom(d.visited))[r.id <- false]
  ensures [kept] forall id int {mapval(d.visited)[id]} :: member(*d, id) ==> item(*d, id) == old(item(*d, id))

func (*DistHeap).Fix(d, i)
  props C12
  requires wf(*d) && 0 <= i && i < len(d.items) && len(d.items) < 1099511627776
  requires hpx(dk(*d), len(d.items), i) && skip(dk(*d), len(d.items), i)
  modifies elems(d.items), mapof(d.visited)
  ensures [wf] wf(*d)
  ensures [order] hp(dk(*d), len(d.items), 0 - 1)
  ensures [dom] mapdom(d.visited) == old(mapdom(d.visited))
  ensures [kept] forall id int {mapval(d.visited)[id]} :: member(*d, id) ==> item(*d, id) == old(item(*d, id))

func (*DistHeap).Insert(d, id, dist)
  props C12
  requires d != 0 && dq(*d) && !isnan32(dist) && len(d.items) < 999999999999
  modifies elems(d.items), d.items, mapof(d.visited), item(*d, id).dist
  ensures [queue] dq(*d)
  ensures [member] mapdom(d.visited) == old(mapdom(d.visited))[id <- true] && d.visited == old(d.visited)
  ensures [value] item(*d, id).dist == dist && item(*d, id).id == id
  ensures [others] forall x int {mapval(d.visited)[x]} :: old(member(*d, x)) ==> item(*d, x) == old(item(*d, x))
  ensures [others2] forall x int {mapval(d.visited)[x]} :: old(member(*d, x)) && x != id ==> item(*d, x).dist == old(item(*d, x).dist)
  ensures [count] len(d.items) == old(len(d.items)) + (old(member(*d, id)) ? 0 : 1)
  at beforecall up use push_last(old(dk(*d)), dk(*d), old(len(d.items)))
  at beforecall up assert d.items[old(len(d.items))].id == id && d.items[old(len(d.items))].dist == dist && mapdom(d.visited)[id] && mapval(d.visited)[id] == old(len(d.items))
  at beforecall up assert forall k int {d.items[k]} :: 0 <= k && k < old(len(d.items)) ==> d.items[k] == old(d.items[k]) && d.items[k] != d.items[old(len(d.items))]
  at beforecall up assert forall k int {d.items[k]} :: 0 <= k && k < old(len(d.items)) ==> old(mapdom(d.visited))[d.items[k].id] && old(mapval(d.visited))[d.items[k].id] == k && d.items[k].id != id && d.items[k] != 0 && alive(d.items[k]) && !isnan32(d.items[k].dist)
  at beforecall up assert forall k int {d.items[k]} :: 0 <= k && k < old(len(d.items)) ==> mapdom(d.visited)[d.items[k].id] && mapval(d.visited)[d.items[k].id] == k
  at beforecall up assert forall x int {mapdom(d.visited)[x]} {mapval(d.visited)[x]} :: mapdom(d.visited)[x] && x != id ==> old(mapdom(d.visited))[x] && mapval(d.visited)[x] == old(mapval(d.visited))[x] && d.items[mapval(d.visited)[x]].id == x && item(*d, x) == old(item(*d, x)) && item(*d, x) != d.items[old(len(d.items))]
  at aftercall up use last_done(dk(*d), len(d.items))
  at aftercall up assert forall x int {mapval(d.visited)[x]} :: old(member(*d, x)) ==> item(*d, x) == pre(item(*d, x))
  at beforecall Fix use changed(old(dk(*d)), dk(*d), len(d.items), index)

func (*DistHeap).PeekMinItem(d) (r *Item, err error)
  props C12
  requires d != 0 && dq(*d)
  ensures [empty] err != nil <==> len(d.items) == 0
  ensures [member] err == nil ==> r != 0 && member(*d, r.id) && item(*d, r.id) == r
  ensures [least] err == nil ==> forall id int {mapval(d.visited)[id]} :: member(*d, id) ==> ford32(r.dist) <= ford32(item(*d, id).dist)
  at entry use forall id int {mapval(d.visited)[id]} :: root_min(dk(*d), len(d.items), mapval(d.visited)[id])

func (*DistHeap).PeekMaxItem(d) (r *Item, err error)
  props C12
  merge
  requires d != 0 && dq(*d)
  ensures [empty] err != nil <==> len(d.items) == 0
  ensures [member] err == nil ==> r != 0 && member(*d, r.id) && item(*d, r.id) == r
  ensures [greatest] err == nil ==> forall id int {mapval(d.visited)[id]} :: member(*d, id) ==> ford32(r.dist) >= ford32(item(*d, id).dist)
  at entry use forall id int {mapval(d.visited)[id]} :: root_max(dk(*d), len(d.items), mapval(d.visited)[id])
  at entry use root_min(dk(*d), len(d.items), 1)
  at entry use root_min(dk(*d), len(d.items), 2)

func (*DistHeap).PopMinItem(d) (r *Item, err error)
  props C12
  requires d != 0 && dq(*d)
  modifies elems(d.items), d.items, mapof(d.visited)
  ensures [empty] err != nil <==> old(len(d.items)) == 0
  ensures [queue] dq(*d)
  ensures [member] err == nil ==> r != 0 && alive(r) && old(member(*d, r.id)) && old(item(*d, r.id)) == r && !isnan32(r.dist)
  ensures [least] err == nil ==> forall id int {old(mapval(d.visited))[id]} :: old(member(*d, id)) ==> ford32(r.dist) <= ford32(old(item(*d, id)).dist)
  ensures [removed] err == nil ==> mapdom(d.visited) == old(mapdom(d.visited))[r.id <- false] && d.visited == old(d.visited) && len(d.items) == old(len(d.items)) - 1
  ensures [others] forall id int {mapval(d.visited)[id]} :: member(*d, id) ==> item(*d, id) == old(item(*d, id))
  at entry use forall id int {mapval(d.visited)[id]} :: root_min(dk(*d), len(d.items), mapval(d.visited)[id])
  at aftercall Swap use pop_root(pre(dk(*d)), dk(*d), n)

func (*DistHeap).PopMaxItem(d) (r *Item, err error)
  props C12
  merge
  requires d != 0 && dq(*d)
  modifies elems(d.items), d.items, mapof(d.visited)
  ensures [empty] err != nil <==> old(len(d.items)) == 0
  ensures [queue] dq(*d)
  ensures [member] err == nil ==> r != 0 && alive(r) && old(member(*d, r.id)) && old(item(*d, r.id)) == r && !isnan32(r.dist)
  ensures [greatest] err == nil ==> forall id int {old(mapval(d.visited))[id]} :: old(member(*d, id)) ==> ford32(r.dist) >= ford32(old(item(*d, id)).dist)
  ensures [removed] err == nil ==> mapdom(d.visited) == old(mapdom(d.visited))[r.id <- false] && d.visited == old(d.visited) && len(d.items) == old(len(d.items)) - 1
  ensures [others] forall id int {mapval(d.visited)[id]} :: member(*d, id) ==> item(*d, id) == old(item(*d, id))
  at entry use forall id int {mapval(d.visited)[id]} :: root_max(dk(*d), len(d.items), mapval(d.visited)[id])
  at entry use root_min(dk(*d), len(d.items), 1)
  at entry use root_min(dk(*d), len(d.items), 2)
  at aftercall Swap use pop_top(pre(dk(*d)), dk(*d), n - 1, i)

func (*DistHeap).Clone(d) (r *DistHeap)
  props C12
  requires d != 0 && dq(*d)
  ensures [queue] r != 0 && fresh(r) && dq(*r)
  ensures [members] mapdom(r.visited) == mapdom(d.visited)
  ensures [same] forall id int {mapval(r.visited)[id]} :: member(*d, id) ==> item(*r, id).dist == item(*d, id).dist && item(*r, id).id == id
  ensures [apart] fresh(r.items) && fresh(r.visited) && forall id int {mapval(r.visited)[id]} :: member(*r, id) ==> fresh(item(*r, id))
  at return use hp_frame(dk(*d), dk(*r), len(d.items), 0 - 1)
  loop 0
    modifies elems(n.items)
    invariant forall k int {n.items[k]} :: 0 <= k && k < $i ==> fresh(n.items[k]) && alive(n.items[k]) && n.items[k].id == d.items[k].id && n.items[k].dist == d.items[k].dist
