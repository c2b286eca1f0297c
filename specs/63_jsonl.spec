package bytes
// first(a, o, n, c): the position of the first c among a[o], ..., a[o+n-1], or n.
fn first(b Bs, c int) int
axiom first_def: forall b Bs, c int {first(b, c)} :: 0 <= first(b, c) && first(b, c) <= len(b) && (first(b, c) < len(b) ==> b[first(b, c)] == c)
axiom first_least: forall b Bs, c, i int {first(b, c), b[i]} :: 0 <= i && i < first(b, c) ==> b[i] != c
extern bytes.IndexByte(b, c) (r)
  ensures r == (first(bs(b), c) < len(b) ? first(bs(b), c) : 0 - 1)
fn rdsrc(r int) Bs
extern bytes.NewReader(b) (r *bytes.Reader)
  ensures r != 0 && fresh(r) && rdsrc(r) == bs(b)

package json
// encoding/json reads its input as a sequence of tokens: token i of input in is
// jtok(in, i), after i tokens jend(in, i) bytes are consumed, and there are jtoks(in)
// tokens before the end or an error. jobj: before token i the decoder is directly inside an
// object, at a key or the end; jopen: the token that opened the innermost container;
// jmore: no closing bracket follows.
fn jin(d int) Bs
fn jtok(in Bs, i int) int
fn jend(in Bs, i int) int
fn jtoks(in Bs) int
fn jobj(in Bs, i int) bool
fn jopen(in Bs, i int) int
fn jmore(in Bs, i int) bool
ghost jat [int]int       // per decoder: the number of tokens read
extern json.NewDecoder(r) (d *json.Decoder)
  modifies jat
  ensures d != 0 && fresh(d) && jin(d) == rdsrc(unbox(*bytes.Reader, r)) && jat == old(jat)[d <- 0]
fn isdelim(t, c int) bool = t == boxed(json.Delim, c)
fn scalar(t int) bool = t == nil || dyntype(t) == typetag(float64) || dyntype(t) == typetag(string) || dyntype(t) == typetag(bool)
// jval(in, p): the text of the value that is token p of a member: from behind the first
// colon after the key to the end of the token.
fn jcolon(in Bs, p int) int = jend(in, p) + first(mkbs(bsarr(in), jend(in, p), len(in) - jend(in, p)), 58)
fn jval(in Bs, p int) Bs = mkbs(bsarr(in), jcolon(in, p) + 1, jend(in, p + 1) - jcolon(in, p) - 1)
// squares(in, o, p): opening minus closing square brackets among tokens o, ..., p-1.
fn squares(in Bs, o, p int) int
extern (*json.Decoder).Token(d) (t, err error)
  modifies jat
  let in = jin(d)
  let p = jat[d]
  ensures err == nil ==> jat == old(jat)[d <- p + 1] && t == jtok(in, p) && 0 <= p && p < jtoks(in) && 0 <= jend(in, p) && jend(in, p) < jend(in, p + 1) && jend(in, p + 1) <= len(in)
  ensures 0 <= p && p < jtoks(in) ==> err == nil
  ensures err == nil ==> t == nil || dyntype(t) == typetag(json.Delim) || dyntype(t) == typetag(float64) || dyntype(t) == typetag(string) || dyntype(t) == typetag(bool)
  ensures err == nil && dyntype(t) == typetag(json.Delim) ==> isdelim(t, 123) || isdelim(t, 125) || isdelim(t, 91) || isdelim(t, 93)
  ensures err != nil ==> jat == old(jat)
  ensures [root] err == nil && p == 0 && isdelim(t, 123) ==> jobj(in, 1) && jopen(in, 1) == 0
  ensures [key] err == nil && jobj(in, p) && jmore(in, p) ==> dyntype(t) == typetag(string)
  ensures [scalar] err == nil && p >= 1 && jobj(in, p - 1) && jmore(in, p - 1) && scalar(t) ==> jobj(in, p + 1) && jopen(in, p + 1) == jopen(in, p - 1) && jtok(jval(in, p), 0) == t && jtoks(jval(in, p)) >= 1
  ensures [value] err == nil && p >= 1 && jobj(in, p - 1) && jmore(in, p - 1) ==> scalar(t) || isdelim(t, 123) || isdelim(t, 91)
  ensures [colon] err == nil && p >= 1 && jobj(in, p - 1) && jmore(in, p - 1) ==> jcolon(in, p) < jend(in, p + 1)
  ensures [object] err == nil && p >= 1 && jobj(in, p - 1) && jmore(in, p - 1) && isdelim(t, 123) ==> jobj(in, p + 1) && jopen(in, p + 1) == p
  ensures [close] err == nil && isdelim(t, 125) && jobj(in, p) && jopen(in, p) >= 1 && jobj(in, jopen(in, p) - 1) && jmore(in, jopen(in, p) - 1) ==> jobj(in, p + 1) && jopen(in, p + 1) == jopen(in, jopen(in, p) - 1)
  ensures [array] err == nil && p >= 1 && jobj(in, p - 1) && jmore(in, p - 1) && isdelim(t, 91) ==> squares(in, p, p + 1) == 1 && jarr(in, p, p + 1)
  ensures [square] forall o int {squares(in, o, p)} :: err == nil && o < p ==> 0 - len(in) <= squares(in, o, p + 1) && squares(in, o, p + 1) <= len(in) && squares(in, o, p + 1) == squares(in, o, p) + (isdelim(t, 91) ? 1 : isdelim(t, 93) ? 0 - 1 : 0)
  ensures [arrayend] forall o int {jarr(in, o, p)} :: err == nil && jarr(in, o, p) ==> squares(in, o, p + 1) != 0 ? jarr(in, o, p + 1) : jobj(in, p + 1) && jopen(in, p + 1) == jopen(in, o - 1)
// jarr(in, o, p): position p is inside the array opened by token o.
fn jarr(in Bs, o, p int) bool
extern (*json.Decoder).InputOffset(d) (r)
  ensures r == jend(jin(d), jat[d]) && 0 <= r && r <= len(jin(d))
extern (*json.Decoder).More(d) (r)
  ensures r <==> jmore(jin(d), jat[d])
extern (json.Number).Float64(n) (f, err error)
