package appendable
extern appendable.IndexFile.BenchmarkCallback(self, n)
func (*IndexFile).IsSearch(i, fieldName) (r)
  ensures r ==> len(i.searchHeaders) > 0
  loop 0
    modifies nothing
// What the handlers rely on: a weaker form of the contracts in 61_indexfile.spec and
// 70_bptree.spec, without the state of the file.
func (*IndexFile).FindOrCreateIndex(i, name, fieldType) (r *linkedpage.LinkedPage, m *IndexMeta, err error)
  aspect sync
  trusted "weaker than its full contract on a well-formed file: the handle is a slot, the record carries the name, the type and the type's width"
  modifies disk, size, pos, iofail, used, gk
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures size >= old(size)
  ensures err == nil ==> r != 0 && m != 0 && fresh(m) && lpok(*r) && r.index <= 14 && r.offset + 4096 <= size
  ensures err == nil ==> m.FieldName == name && len(name) <= 236 && m.FieldType == fieldType && m.Width == fixedwidth(fieldType)
package bptree
func (*BPTree).Insert(t, key, value) (err error)
  aspect sync
  trusted "an insert changes the store only and never shrinks it"
  modifies disk, size, pos, iofail, used
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures size >= old(size)
package strings
extern strings.Join(elems, sep) (r)
  ensures len(elems) == 1 ==> r == elems[0]
package ngram
func BuildNgram(phrase, gl) (r)
  aspect sync
  trusted "C14"
  ensures 0 <= len(r) && forall k int {r[k]} :: 0 <= k && k < len(r) ==> len(r[k].Word) == gl

package handlers
// Lines: the line at offset o of the data ends at its next newline.
opaque fn lnlen(b Bs, o int) int = first(mkbs(bsarr(b), o, len(b) - o), 10)
fn hasline(b Bs, o int) bool = 0 <= o && o <= len(b) && lnlen(b, o) < len(b) - o
fn lnext(b Bs, o int) int = o + lnlen(b, o) + 1
// The lines handed to the line handler, in order.
ghost nline int
ghost loff [int]int
ghost llen [int]int

func jsonTypeToFieldType(t) (r)
  props C15, C22
  requires t == nil || dyntype(t) == typetag(json.Delim) || dyntype(t) == typetag(float64) || dyntype(t) == typetag(string) || dyntype(t) == typetag(bool)
  requires dyntype(t) == typetag(json.Delim) ==> isdelim(t, 123) || isdelim(t, 91)
  ensures [one] len(r) == 1 && fresh(r) && cap(r) >= 1
  ensures [type] r[0] == (t == nil ? 7 : dyntype(t) == typetag(string) ? 0 : dyntype(t) == typetag(float64) ? 3 : dyntype(t) == typetag(bool) ? 6 : isdelim(t, 123) ? 4 : 5)

func (JSONLHandler).Synchronize(j, f, df) (err error)
  aspect sync
  props C15, C19
  let b = bs(df)
  let s = slot(f.tree.offset, f.tree.index)
  requires f != 0 && f.tree != 0 && lpok(*f.tree) && f.tree.index != 255 && f.tree.offset + 4096 <= size && froff(disk, s) <= len(df) && nline >= 0
  requires forall o int {lnlen(b, o)} :: hasline(b, o) ==> lnlen(b, o) < 4294967296
  modifies disk, size, pos, iofail, used, jat, gk, jp, nins, nb, nline, loff, llen
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [start] err == nil && nline > old(nline) ==> loff[old(nline)] == froff(old(disk), s)
  ensures [complete] err == nil ==> forall k int {loff[k]} :: old(nline) <= k && k < nline ==> hasline(b, loff[k]) && llen[k] == lnlen(b, loff[k])
  ensures [each] err == nil ==> forall k, l int {loff[k], loff[l]} :: old(nline) <= k && l == k + 1 && l < nline ==> loff[l] == lnext(b, loff[k])
  ensures [offset] err == nil ==> froff(disk, s) == (nline > old(nline) ? lnext(b, loff[nline - 1]) : froff(old(disk), s))
  ensures [all] err == nil ==> !hasline(b, froff(disk, s))
  ensures [entries] err == nil ==> frent(disk, s) == wrap(uint64, frent(old(disk), s) + nline - old(nline))
  ensures [kept] forall k int {loff[k]} :: k < old(nline) ==> loff[k] == old(loff)[k] && llen[k] == old(llen)[k]
  at beforecall handleJSONLObject
    assert hasline(b, $data.Offset)
  at beforecall handleJSONLObject
    assert lnlen(b, $data.Offset) < 4294967296
  at beforecall handleJSONLObject
    assert [line] $data.Length == lnlen(b, $data.Offset)
  at beforecall handleJSONLObject
    set loff = loff[nline <- $data.Offset]
  at beforecall handleJSONLObject
    set llen = llen[nline <- $data.Length]
  at beforecall handleJSONLObject
    set nline = nline + 1
  at aftercall IndexByte
    mention mkbs(bsarr(b), metadata.ReadOffset, len(b) - metadata.ReadOffset)
  loop 0
    modifies disk, size, pos, iofail, used, jat, gk, jp, nins, nb, nline, loff, llen, *metadata
    invariant [io] iofail <==> old(iofail)
    invariant [rec] metadata != 0 && fresh(metadata) && metadata.Format <= 1 && 0 <= metadata.Format && 0 <= metadata.Entries && metadata.Entries < 18446744073709551616
    invariant [bounds] 0 <= metadata.ReadOffset && metadata.ReadOffset <= len(df) && nline >= old(nline) && size >= old(size)
    invariant [start] nline > old(nline) ==> loff[old(nline)] == froff(old(disk), s)
    invariant [complete] forall k int {loff[k]} :: old(nline) <= k && k < nline ==> hasline(b, loff[k]) && llen[k] == lnlen(b, loff[k])
    invariant [each] forall k, l int {loff[k], loff[l]} :: old(nline) <= k && l == k + 1 && l < nline ==> loff[l] == lnext(b, loff[k])
    invariant [offset] metadata.ReadOffset == (nline > old(nline) ? lnext(b, loff[nline - 1]) : froff(old(disk), s))
    invariant [entries] metadata.Entries == wrap(uint64, frent(old(disk), s) + nline - old(nline))
    invariant [kept] forall k int {loff[k]} :: k < old(nline) ==> loff[k] == old(loff)[k] && llen[k] == old(llen)[k]

// The type a JSON value is indexed under, and its key: functions of the token alone.
fn jtype(t int) int = t == nil ? 7 : dyntype(t) == typetag(string) ? 0 : dyntype(t) == typetag(float64) ? 3 : dyntype(t) == typetag(bool) ? 6 : isdelim(t, 123) ? 4 : 5
fn jkeyis(k Bs, t int) bool = t == nil ? len(k) == 0 : dyntype(t) == typetag(string) ? k == unbox(string, t) : dyntype(t) == typetag(float64) ? numkey(k, unbox(float64, t)) : dyntype(t) == typetag(bool) ? boolkey(k, unbox(bool, t)) : false
fn gram(ft int) bool = ft == 8 || ft == 9 || ft == 10
// The colon behind a key is the first one in the line, and so the first one in the file.
lemma first_in(b, in Bs, o, e, c int)
  props C17
  requires mkbs(bsarr(b), o, len(in)) == in && 0 <= o && o + len(in) <= len(b) && 0 <= e && e <= len(in)
  let x = mkbs(bsarr(in), e, len(in) - e)
  let y = mkbs(bsarr(b), o + e, len(b) - o - e)
  requires first(x, c) < len(x)
  assert forall i int {y[i]} :: 0 <= i && i < len(x) ==> y[i] == x[i]
  assert y[first(x, c)] == c
  ensures first(y, c) == first(x, c)
ghost nins int           // entries inserted, n-grams apart
ghost nb int             // ... before the current value
ghost jp int             // the token that is being indexed
// token p is the value of a member of an object of in
fn jmember(in Bs, p, t int) bool = p >= 1 && jobj(in, p - 1) && jmore(in, p - 1) && t == jtok(in, p) && (t == nil || scalar(t) || isdelim(t, 123) || isdelim(t, 91))

func (JSONLHandler).Parse(j, value) (r)
  props C17, C18
  requires jtoks(bs(value)) >= 1 ==> dyntype(jtok(bs(value), 0)) != typetag(json.Delim)
  modifies jat
  ensures [key] jtoks(bs(value)) >= 1 ==> jkeyis(bs(r), jtok(bs(value), 0))

lemma jkey_unique(k, l Bs, t int)
  props C17, C18
  requires jkeyis(k, t) && jkeyis(l, t)
  assert t != nil && dyntype(t) == typetag(float64) ==> k == l
  ensures k == l

func (JSONLHandler).handleJSONLObject(j, f, r, dec, path, data) (err error)
  aspect sync
  props C15, C17, C18, C22, C19
  merge all
  let in = jin(dec)
  let b = bs(r)
  requires f != 0 && dec != 0 && jobj(in, jat[dec]) && len(in) < 4294967296
  requires 0 <= data.Offset && data.Offset + len(in) <= len(r) && mkbs(elems(r), r.off + data.Offset, len(in)) == in
  modifies disk, size, pos, iofail, used, jat, gk, jp, nins, nb, elems(path)
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [grows] size >= old(size)
  ensures [object] err == nil ==> jobj(in, jat[dec]) && jopen(in, jat[dec]) == jopen(in, old(jat)[dec]) && !jmore(in, jat[dec])
  ensures [forward] jat[dec] >= old(jat)[dec]
  ensures [others] forall d int {jat[d]} :: d != dec ==> jat[d] == old(jat)[d]
  ensures jp == old(jp) && nb == old(nb)
  at return
    set jp = old(jp)
  at return
    set nb = old(nb)
  at beforecall InputOffset#1
    set jp = jat[dec]
  at beforecall InputOffset#1
    set nb = nins
  at beforecall Insert
    set nins = gram(ft) ? nins : nins + 1
  at beforecall Insert
    assert [width] $t.Width != 0 ==> len($key.Value) == $t.Width - 1
  at beforecall Insert
    assert [data] $value == data && $t.Data == r
  at beforecall Insert
    assert [pointer] !gram(ft) ==> 0 <= $key.DataPointer.Offset && $key.DataPointer.Offset + $key.DataPointer.Length <= len(r) && mkbs(elems(r), r.off + $key.DataPointer.Offset, $key.DataPointer.Length) == jval(in, jp)
  at beforecall Insert
    assert [key] !gram(ft) ==> ft == jtype(value) && jkeyis(bs($key.Value), value)
  at aftercall Token
    use first_in(b, in, data.Offset, jend(in, jp), 58)
  loop 0
    modifies disk, size, pos, iofail, used, jat, gk, jp, nins, nb, elems(path)
    invariant [io] iofail <==> old(iofail)
    invariant [grows] size >= old(size)
    invariant [object] jobj(in, jat[dec]) && jopen(in, jat[dec]) == jopen(in, old(jat)[dec]) && jat[dec] >= old(jat)[dec]
    invariant [others] forall d int {jat[d]} :: d != dec ==> jat[d] == old(jat)[d]
  loop 1
    modifies disk, size, pos, iofail, used, jat, gk, jp, nins, nb, elems(path)
    invariant [io] iofail <==> old(iofail)
    invariant [grows] size >= old(size)
    invariant [others] forall d int {jat[d]} :: d != dec ==> jat[d] == old(jat)[d]
    invariant [member] jmember(in, jp, value) && jopen(in, jp - 1) == jopen(in, old(jat)[dec]) && jp >= old(jat)[dec]
    invariant [place] fieldOffset == jcolon(in, jp) + 1 && 0 <= jcolon(in, jp) && jcolon(in, jp) < jend(in, jp + 1) && jend(in, jp + 1) <= len(in)
    invariant [array] isdelim(value, 91) ==> squares(in, jp, jp + 1) == 1 && jarr(in, jp, jp + 1)
    invariant [inner] isdelim(value, 123) ==> jobj(in, jp + 1) && jopen(in, jp + 1) == jp
    invariant [before] $i == 0 || scalar(value) ==> jat[dec] == jp + 1
    invariant [after] $i > 0 || scalar(value) ==> jobj(in, jat[dec]) && jopen(in, jat[dec]) == jopen(in, jp - 1) && jat[dec] > jp
    invariant [once] scalar(value) ==> nins == nb + ($i > 0 ? 1 : 0)
    invariant [first] len(fts) >= 1 && fts[0] == jtype(value) && forall k int {fts[k]} :: 1 <= k && k < len(fts) ==> gram(fts[k])
    invariant [types] forall k int {fts[k]} :: 0 <= k && k < len(fts) ==> fts[k] == jtype(value) || dyntype(value) == typetag(string) && gram(fts[k])
    invariant [one] len(fts) == 1 || dyntype(value) == typetag(string)
  loop 2
    modifies disk, size, pos, iofail, used, nins, *meta
    invariant [io] iofail <==> old(iofail)
    invariant [once] nins == nb + 1
    invariant [grows] size >= old(size)
    invariant [record] page.offset + 4096 <= size && meta != 0 && meta.FieldName == name && meta.FieldType == ft && meta.Width == fixedwidth(ft)
  loop 3
    modifies jat
    invariant [others] forall d int {jat[d]} :: d != dec ==> jat[d] == old(jat)[d]
    invariant [depth] depth == squares(in, jp, jat[dec]) && jarr(in, jp, jat[dec]) && jat[dec] > jp

package csv
// encoding/csv applied to one line: field i is cfield(in, i), it starts at byte ccol(in, i).
fn cin(d int) Bs
fn cnum(in Bs) int
fn cfield(in Bs, i int) Bs
fn ccol(in Bs, i int) int
fn quotes(s Bs) int
fn cquoted(in Bs, i int) bool = ccol(in, i) < len(in) && in[ccol(in, i)] == 34
fn ctext(in Bs, i int) Bs = cquoted(in, i) ? mkbs(bsarr(in), ccol(in, i) + 1, len(cfield(in, i)) + quotes(cfield(in, i))) : mkbs(bsarr(in), ccol(in, i), len(cfield(in, i)))
extern csv.NewReader(r) (d *csv.Reader)
  ensures d != 0 && fresh(d) && cin(d) == rdsrc(unbox(*bytes.Reader, r))
extern (*csv.Reader).Read(d) (r, err error)
  let in = cin(d)
  ensures err == nil ==> fresh(r) && len(r) == cnum(in)
  ensures [fields] err == nil ==> forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == cfield(in, i)
  ensures [text] err == nil ==> forall i int {r[i]} :: 0 <= i && i < len(r) ==> 0 <= ccol(in, i) && undouble(ctext(in, i)) == cfield(in, i) && 0 <= quotes(cfield(in, i)) && ccol(in, i) + len(cfield(in, i)) <= len(in) && (cquoted(in, i) ==> ccol(in, i) + 1 + len(cfield(in, i)) + quotes(cfield(in, i)) <= len(in))
  ensures err == io.EOF ==> cnum(in) == 0
extern (*csv.Reader).FieldPos(d, field) (line, column)
  ensures column == ccol(cin(d), field) + 1
package strings
extern strings.Count(s, substr) (r)
  ensures substr == "\"" ==> r == quotes(s)

package handlers
func (CSVHandler).handleCSVLine(c, f, df, dec, headers, path, data) (err error)
  aspect sync
  props C16, C17, C18, C22, C19
  merge all
  let in = cin(dec)
  requires f != 0 && dec != 0 && len(path) == 0 && len(in) < 4294967296
  requires 0 <= data.Offset && data.Offset + len(in) <= len(df) && data.Length == len(in) && mkbs(elems(df), df.off + data.Offset, len(in)) == in
  modifies disk, size, pos, iofail, used, gk, nins, elems(path)
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [grows] size >= old(size)
  ensures [count] err == nil ==> nins == old(nins) + cnum(in)
  at beforecall FindOrCreateIndex
    assert [index] $name == headers[fieldIndex] && $fieldType == csvtype(cfield(in, fieldIndex))
  at beforecall Insert
    assert [width] $t.Width != 0 ==> len($key.Value) == $t.Width - 1
  at beforecall Insert
    assert [data] $value == data && $t.Data == df
  at beforecall Insert
    assert [key] csvkeyis(bs($key.Value), cfield(in, fieldIndex))
  at beforecall Insert
    assert 0 <= $key.DataPointer.Offset && $key.DataPointer.Offset + $key.DataPointer.Length <= len(df)
  at beforecall Insert
    assert [pointer] mkbs(elems(df), df.off + $key.DataPointer.Offset, $key.DataPointer.Length) == ctext(in, fieldIndex)
  at beforecall Insert
    set nins = nins + 1
  loop 0
    modifies disk, size, pos, iofail, used, gk, nins, elems(path)
    invariant [io] iofail <==> old(iofail)
    invariant [grows] size >= old(size)
    invariant [count] nins == old(nins) + $i

func (CSVHandler).Synchronize(c, f, df) (err error)
  aspect sync
  props C16, C19
  let b = bs(df)
  let s = slot(f.tree.offset, f.tree.index)
  let begin = froff(disk, s) == 0 && hasline(b, 0) ? lnext(b, 0) : froff(disk, s)
  requires f != 0 && f.tree != 0 && lpok(*f.tree) && f.tree.index != 255 && f.tree.offset + 4096 <= size && froff(disk, s) <= len(df) && nline >= 0
  requires forall o int {lnlen(b, o)} :: hasline(b, o) ==> lnlen(b, o) < 4294967296
  modifies disk, size, pos, iofail, used, gk, nins, nline, loff, llen
  ensures [io] err == nil ==> (iofail <==> old(iofail))
  ensures [start] err == nil && nline > old(nline) ==> loff[old(nline)] == begin
  ensures [complete] err == nil ==> forall k int {loff[k]} :: old(nline) <= k && k < nline ==> hasline(b, loff[k]) && llen[k] == lnlen(b, loff[k])
  ensures [each] err == nil ==> forall k, l int {loff[k], loff[l]} :: old(nline) <= k && l == k + 1 && l < nline ==> loff[l] == lnext(b, loff[k])
  ensures [offset] err == nil ==> froff(disk, s) == (nline > old(nline) ? lnext(b, loff[nline - 1]) : begin)
  ensures [all] err == nil ==> !hasline(b, froff(disk, s))
  ensures [kept] forall k int {loff[k]} :: k < old(nline) ==> loff[k] == old(loff)[k] && llen[k] == old(llen)[k]
  at beforecall handleCSVLine
    assert hasline(b, $data.Offset)
  at beforecall handleCSVLine
    assert lnlen(b, $data.Offset) < 4294967296
  at beforecall handleCSVLine
    assert [line] $data.Length == lnlen(b, $data.Offset)
  at beforecall handleCSVLine
    assert [headers] len($headers) == cnum(mkbs(bsarr(b), 0, lnlen(b, 0))) && forall k int {$headers[k]} :: 0 <= k && k < len($headers) ==> $headers[k] == cfield(mkbs(bsarr(b), 0, lnlen(b, 0)), k)
  at beforecall handleCSVLine
    set loff = loff[nline <- $data.Offset]
  at beforecall handleCSVLine
    set llen = llen[nline <- $data.Length]
  at beforecall handleCSVLine
    set nline = nline + 1
  at aftercall IndexByte
    mention mkbs(bsarr(b), metadata.ReadOffset, len(b) - metadata.ReadOffset)
  loop 0
    modifies disk, size, pos, iofail, used, gk, nins, nline, loff, llen, *metadata
    invariant [io] iofail <==> old(iofail)
    invariant [rec] metadata != 0 && fresh(metadata) && metadata.Format <= 1 && 0 <= metadata.Format && 0 <= metadata.Entries && metadata.Entries < 18446744073709551616
    invariant [bounds] 0 <= metadata.ReadOffset && metadata.ReadOffset <= len(df) && nline >= old(nline) && size >= old(size)
    invariant [start] nline > old(nline) ==> loff[old(nline)] == begin
    invariant [complete] forall k int {loff[k]} :: old(nline) <= k && k < nline ==> hasline(b, loff[k]) && llen[k] == lnlen(b, loff[k])
    invariant [each] forall k, l int {loff[k], loff[l]} :: old(nline) <= k && l == k + 1 && l < nline ==> loff[l] == lnext(b, loff[k])
    invariant [offset] metadata.ReadOffset == (nline > old(nline) ? lnext(b, loff[nline - 1]) : begin)
    invariant [kept] forall k int {loff[k]} :: k < old(nline) ==> loff[k] == old(loff)[k] && llen[k] == old(llen)[k]

// Growing the data changes no line that is already complete, so a synchronisation in
// pieces hands over the same lines as one over the whole.
lemma grown_line(b, c Bs, o int)
  props C15, C16
  requires len(b) <= len(c) && mkbs(bsarr(c), 0, len(b)) == b && hasline(b, o)
  let x = mkbs(bsarr(b), o, len(b) - o)
  let y = mkbs(bsarr(c), o, len(c) - o)
  assert lnlen(b, o) == first(x, 10) && lnlen(c, o) == first(y, 10)
  assert forall i int {y[i]} :: 0 <= i && i < len(x) ==> y[i] == x[i]
  assert y[first(x, 10)] == 10
  mention mkbs(bsarr(c), o, lnlen(b, o))
  ensures [line] hasline(c, o) && lnlen(c, o) == lnlen(b, o) && lnext(c, o) == lnext(b, o)
  ensures [text] mkbs(bsarr(c), o, lnlen(b, o)) == mkbs(bsarr(b), o, lnlen(b, o))
