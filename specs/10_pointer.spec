package pointer
fn rvcmp(a ReferencedValue, b ReferencedValue) int =
  bcmp(a.Value, b.Value) != 0 ? bcmp(a.Value, b.Value)
  : a.DataPointer.Offset < b.DataPointer.Offset ? 0 - 1
  : a.DataPointer.Offset > b.DataPointer.Offset ? 1
  : a.DataPointer.Length < b.DataPointer.Length ? 0 - 1
  : a.DataPointer.Length > b.DataPointer.Length ? 1 : 0

func CompareReferencedValues(a, b) (r int)
  props C10
  ensures [def] r == rvcmp(a, b)

func CompareReferencedIds(a, b) (r int)
  props C10
  ensures [def] r == (a.Value > b.Value ? 1 : a.Value < b.Value ? 0 - 1 : 0)

lemma rv_antisym(a, b ReferencedValue)
  props C10
  ensures rvcmp(b, a) == 0 - rvcmp(a, b)
lemma rv_trans(a, b, c ReferencedValue)
  props C10
  requires rvcmp(a, b) < 0 && rvcmp(b, c) < 0
  ensures rvcmp(a, c) < 0
lemma rv_trans_le(a, b, c ReferencedValue)
  props C10
  requires rvcmp(a, b) <= 0 && rvcmp(b, c) <= 0
  ensures rvcmp(a, c) <= 0
lemma rv_eq(a, b ReferencedValue)
  props C10
  ensures rvcmp(a, b) == 0 <==> a == b
lemma rv_range(a, b ReferencedValue)
  props C10
  ensures rvcmp(a, b) == 0 || rvcmp(a, b) == 1 || rvcmp(a, b) == 0 - 1
