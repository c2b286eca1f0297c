// Contracts assumed for the standard library and for the storage interface.

ghost disk [int]int      // the bytes of the store
ghost size int           // its length
ghost pos int            // its cursor
ghost iofail bool        // some storage operation has reported an error

package bits
fn bitlen(x int) int = x < 1 ? 0 : x < 2 ? 1 : x < 4 ? 2 : x < 8 ? 3 : x < 16 ? 4 : x < 32 ? 5 : x < 64 ? 6 : x < 128 ? 7 : x < 256 ? 8 : x < 512 ? 9
  : x < 1024 ? 10 : x < 2048 ? 11 : x < 4096 ? 12 : x < 8192 ? 13 : x < 16384 ? 14 : x < 32768 ? 15 : x < 65536 ? 16 : x < 131072 ? 17 : x < 262144 ? 18 : x < 524288 ? 19
  : x < 1048576 ? 20 : x < 2097152 ? 21 : x < 4194304 ? 22 : x < 8388608 ? 23 : x < 16777216 ? 24 : x < 33554432 ? 25 : x < 67108864 ? 26 : x < 134217728 ? 27 : x < 268435456 ? 28 : x < 536870912 ? 29
  : x < 1073741824 ? 30 : x < 2147483648 ? 31 : x < 4294967296 ? 32 : x < 8589934592 ? 33 : x < 17179869184 ? 34 : x < 34359738368 ? 35 : x < 68719476736 ? 36 : x < 137438953472 ? 37 : x < 274877906944 ? 38 : x < 549755813888 ? 39
  : x < 1099511627776 ? 40 : x < 2199023255552 ? 41 : x < 4398046511104 ? 42 : x < 8796093022208 ? 43 : x < 17592186044416 ? 44 : x < 35184372088832 ? 45 : x < 70368744177664 ? 46 : x < 140737488355328 ? 47 : x < 281474976710656 ? 48 : x < 562949953421312 ? 49
  : x < 1125899906842624 ? 50 : x < 2251799813685248 ? 51 : x < 4503599627370496 ? 52 : x < 9007199254740992 ? 53 : x < 18014398509481984 ? 54 : x < 36028797018963968 ? 55 : x < 72057594037927936 ? 56 : x < 144115188075855872 ? 57 : x < 288230376151711744 ? 58 : x < 576460752303423488 ? 59
  : x < 1152921504606846976 ? 60 : x < 2305843009213693952 ? 61 : x < 4611686018427387904 ? 62 : x < 9223372036854775808 ? 63 : 64
extern bits.Len64(x) (n int)
  ensures n == bitlen(x)

package encoding
func SizeVarint(v) (n int)
  props C01, C02
  ensures [varint] n == uvl(v)

package bytes
extern bytes.Compare(a, b) (r int)
  ensures r == bcmp(bs(a), bs(b))
extern bytes.Equal(a, b) (r bool)
  ensures r <==> bs(a) == bs(b)

package fmt
extern fmt.Sprintf(format, a) (r)

package errors
extern errors.Is(err, target) (r bool)
  ensures r <==> errIs(err, target)
  ensures err == 0 ==> (r <==> target == 0)
  ensures err == target ==> r
nonzero io.EOF, io.ErrShortBuffer, io.ErrShortWrite

package io
extern (io.Seeker).Seek(offset, whence) (n int, err error)
  modifies pos, iofail
  ensures [c] err == nil ==> n == (whence == 0 ? offset : whence == 1 ? old(pos) + offset : size + offset) && n >= 0 && pos == n
  ensures err == nil ==> whence == 0 || whence == 1 || whence == 2
  ensures err != EOF && !errIs(err, EOF)
  ensures iofail <==> old(iofail) || err != nil

extern (io.Writer).Write(p) (n int, err error)
  modifies disk, size, pos, iofail
  ensures 0 <= n && n <= len(p)
  ensures err == nil ==> n == len(p) && disk == copyin(old(disk), old(pos), elems(p), p.off, len(p)) && size == max(old(size), old(pos) + len(p)) && pos == old(pos) + len(p)
  ensures forall i int {disk[i]} :: (i < old(pos) || i >= old(pos) + len(p)) ==> disk[i] == old(disk)[i]
  ensures size >= old(size)
  ensures iofail <==> old(iofail) || err != nil

extern (io.Reader).Read(p) (n int, err error)
  modifies elems(p), pos, iofail
  ensures 0 <= n && n <= len(p)
  ensures [full] err == nil || err == EOF ==> n == min(len(p), max(size - old(pos), 0)) && pos == old(pos) + n
  ensures err == EOF ==> len(p) > 0 && n < len(p)
  ensures n == 0 && len(p) > 0 ==> err != nil
  ensures elems(p) == copyin(old(elems(p)), p.off, disk, old(pos), n)
  ensures iofail <==> old(iofail) || (err != nil && err != EOF)
  ensures err != EOF ==> !errIs(err, EOF)

package binary
// The reflective helpers, per static type of their argument (little endian only).
nonzero io.ErrUnexpectedEOF
extern binary.Read[*uint64](r, order, data) (err error)
  requires dyntype(order) == typetag(binary.littleEndian)
  modifies pos, iofail, *data
  ensures err == io.EOF || err == io.ErrUnexpectedEOF ==> old(pos) + 8 > size
  ensures err == nil ==> 0 <= old(pos) && old(pos) + 8 <= size && pos == old(pos) + 8 && *data == le8(disk, old(pos))
  ensures err != nil ==> *data == old(*data)
  ensures iofail <==> old(iofail) || (err != nil && err != io.EOF && err != io.ErrUnexpectedEOF)
  ensures err != io.EOF ==> !errIs(err, io.EOF)
extern binary.Read[*uint8](r, order, data) (err error)
  modifies pos, iofail, *data
  ensures err == io.EOF || err == io.ErrUnexpectedEOF ==> old(pos) + 1 > size
  ensures err == nil ==> 0 <= old(pos) && old(pos) + 1 <= size && pos == old(pos) + 1 && *data == disk[old(pos)]
  ensures err != nil ==> *data == old(*data)
  ensures iofail <==> old(iofail) || (err != nil && err != io.EOF && err != io.ErrUnexpectedEOF)
  ensures err != io.EOF ==> !errIs(err, io.EOF)
extern binary.Read[*pointer.MemoryPointer](r, order, data) (err error)
  requires dyntype(order) == typetag(binary.littleEndian)
  modifies pos, iofail, *data
  ensures err == io.EOF || err == io.ErrUnexpectedEOF ==> old(pos) + 12 > size
  ensures err == nil ==> 0 <= old(pos) && old(pos) + 12 <= size && pos == old(pos) + 12 && data.Offset == le8(disk, old(pos)) && data.Length == le4(disk, old(pos) + 8)
  ensures err != nil ==> *data == old(*data)
  ensures iofail <==> old(iofail) || (err != nil && err != io.EOF && err != io.ErrUnexpectedEOF)
  ensures err != io.EOF ==> !errIs(err, io.EOF)
extern binary.Write[uint64](w, order, data) (err error)
  requires dyntype(order) == typetag(binary.littleEndian)
  modifies disk, size, pos, iofail
  ensures err == nil ==> le8(disk, old(pos)) == data && size == max(old(size), old(pos) + 8) && pos == old(pos) + 8
  ensures forall i int {disk[i]} :: (i < old(pos) || i >= old(pos) + 8) ==> disk[i] == old(disk)[i]
  ensures size >= old(size)
  ensures iofail <==> old(iofail) || err != nil
extern binary.Write[uint8](w, order, data) (err error)
  modifies disk, size, pos, iofail
  ensures err == nil ==> disk[old(pos)] == data && size == max(old(size), old(pos) + 1) && pos == old(pos) + 1
  ensures forall i int {disk[i]} :: i != old(pos) ==> disk[i] == old(disk)[i]
  ensures size >= old(size)
  ensures iofail <==> old(iofail) || err != nil
extern binary.Write[pointer.MemoryPointer](w, order, data) (err error)
  requires dyntype(order) == typetag(binary.littleEndian)
  modifies disk, size, pos, iofail
  ensures err == nil ==> le8(disk, old(pos)) == data.Offset && le4(disk, old(pos) + 8) == data.Length && size == max(old(size), old(pos) + 12) && pos == old(pos) + 12
  ensures forall i int {disk[i]} :: (i < old(pos) || i >= old(pos) + 12) ==> disk[i] == old(disk)[i]
  ensures size >= old(size)
  ensures iofail <==> old(iofail) || err != nil
