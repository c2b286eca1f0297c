package bptree
// An insert of a key of another length is refused before anything is touched: the index
// is not among what it may modify. That is part of the contract.
func (*BPTree).Insert(t, key, value) (err error)
  aspect width
  props C09
  prune
  requires t.Width != 0 && len(key.Value) != t.Width - 1
  modifies pos, iofail
  ensures [refused] err != nil
