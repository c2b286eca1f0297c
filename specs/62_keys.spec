package strconv
// What the number and boolean syntaxes accept and denote is the library's business:
// functions of the text.
fn intok(s Bs) bool
fn intval(s Bs) int
fn fltok(s Bs) bool
fn fltval(s Bs) int
fn boolok(s Bs) bool
fn boolval(s Bs) bool
extern strconv.Atoi(s) (n int, err error)
  ensures err == nil <==> intok(s)
  ensures err == nil ==> n == intval(s)
extern strconv.ParseFloat(s, bitSize) (f, err error)
  ensures bitSize == 64 ==> (err == nil <==> fltok(s))
  ensures bitSize == 64 && err == nil ==> f == fltval(s)
extern strconv.ParseBool(s) (b, err error)
  ensures err == nil <==> boolok(s)
  ensures err == nil ==> (b <==> boolval(s))
package slog
extern slog.Debug(msg, args)
extern slog.Info(msg, args)
extern slog.Error(msg, args)
extern slog.Any(key, value) (r)
package strings
fn undouble(s Bs) Bs     // the text with every two quotes replaced by one
extern strings.ReplaceAll(s, o, n) (r)
  ensures o == "\"\"" && n == "\"" ==> r == undouble(s)

package handlers
// A number's key is its IEEE 754 bit pattern, big endian.
fn numkey(k Bs, x int) bool = len(k) == 8 && k[0] == byteN(x, 7) && k[1] == byteN(x, 6) && k[2] == byteN(x, 5) && k[3] == byteN(x, 4) && k[4] == byteN(x, 3) && k[5] == byteN(x, 2) && k[6] == byteN(x, 1) && k[7] == byteN(x, 0)
// A number is the sum of its bytes.
fn bytesum(x int) bool
axiom bytesum_def: forall x int {bytesum(x)} :: 0 <= x && x < 18446744073709551616 ==>
  x == byteN(x, 0) + 256 * byteN(x, 1) + 65536 * byteN(x, 2) + 16777216 * byteN(x, 3) + 4294967296 * byteN(x, 4) + 1099511627776 * byteN(x, 5) + 281474976710656 * byteN(x, 6) + 72057594037927936 * byteN(x, 7)
  && 0 <= byteN(x, 0) && byteN(x, 0) < 256 && 0 <= byteN(x, 1) && byteN(x, 1) < 256 && 0 <= byteN(x, 2) && byteN(x, 2) < 256 && 0 <= byteN(x, 3) && byteN(x, 3) < 256
  && 0 <= byteN(x, 4) && byteN(x, 4) < 256 && 0 <= byteN(x, 5) && byteN(x, 5) < 256 && 0 <= byteN(x, 6) && byteN(x, 6) < 256 && 0 <= byteN(x, 7) && byteN(x, 7) < 256
fn boolkey(k Bs, b bool) bool = len(k) == 1 && k[0] == (b ? 1 : 0)

// A CSV field's type and key are functions of its text alone.
fn csvtype(s Bs) int = len(s) == 0 ? 7 : intok(s) || fltok(s) ? 3 : boolok(s) ? 6 : 0
fn csvnum(s Bs) int = intok(s) ? i2f64(intval(s)) : fltval(s)
fn csvkeyis(k Bs, s Bs) bool = csvtype(s) == 0 ? k == s : csvtype(s) == 3 ? numkey(k, csvnum(s)) : csvtype(s) == 6 ? boolkey(k, boolval(s)) : len(k) == 0

func InferCSVField(fieldValue) (v, ft)
  props C16, C17, C18, C22
  ensures [type] ft == csvtype(fieldValue)
  ensures [number] ft == 3 ==> v == boxed(float64, csvnum(fieldValue))
  ensures [bool] ft == 6 ==> v == boxed(bool, boolval(fieldValue))
  ensures [string] ft == 0 ==> v == boxed(string, fieldValue)
  ensures [null] ft == 7 ==> v == nil

func csvKey(fieldValue) (r)
  props C16, C17, C18, C22
  ensures [key] csvkeyis(bs(r), fieldValue)
  ensures [width] fixedwidth(csvtype(fieldValue)) != 0 ==> len(r) == fixedwidth(csvtype(fieldValue)) - 1

func (CSVHandler).Parse(c, value) (r)
  props C17
  ensures [key] csvkeyis(bs(r), undouble(bs(value)))

// A key is determined by the text ...
lemma csvkey_unique(k, l, s Bs)
  props C17, C18
  requires csvkeyis(k, s) && csvkeyis(l, s)
  assert csvtype(s) == 3 ==> k == l
  ensures k == l
// ... has the width declared for its type ...
lemma csvkey_width(k, s Bs)
  props C22
  requires csvkeyis(k, s)
  ensures fixedwidth(csvtype(s)) != 0 ==> len(k) == fixedwidth(csvtype(s)) - 1
// ... and numbers that are not negative, and booleans, sort like their values.
lemma num_unique(k, l Bs, x int)
  props C18
  requires numkey(k, x) && numkey(l, x)
  ensures k == l
lemma num_order(k, l Bs, x, y int)
  props C18
  requires numkey(k, x) && numkey(l, y) && 0 <= x && x < 9223372036854775808 && 0 <= y && y < 9223372036854775808
  mention bytesum(x)
  mention bytesum(y)
  ensures [less] bcmp(k, l) < 0 <==> ford64(x) < ford64(y)
  ensures [equal] k == l <==> ford64(x) == ford64(y)
lemma bool_order(k, l Bs, b, c bool)
  props C18
  requires boolkey(k, b) && boolkey(l, c)
  ensures [less] bcmp(k, l) < 0 <==> !b && c
  ensures [equal] k == l <==> (b <==> c)
