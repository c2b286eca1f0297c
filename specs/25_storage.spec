package buftest
// The buffer as a byte array with a cursor: bytes [0, len) and 0 <= pos <= len.
fn bok(b SeekableBuffer) bool = 0 <= b.pos && b.pos <= len(b.buf) && len(b.buf) < 70368744177664

func (*SeekableBuffer).Write(b, p) (n int, err error)
  props C20
  requires bok(*b) && len(p) < 70368744177664 && arr(p) != arr(b.buf)
  modifies b.buf, b.pos, elems(b.buf)
  ensures [all] err == nil && n == len(p)
  ensures [size] len(b.buf) == max(old(len(b.buf)), old(b.pos) + len(p))
  ensures [cursor] b.pos == old(b.pos) + len(p)
  ensures [data] forall i int {b.buf[i]} :: 0 <= i && i < len(b.buf) ==> b.buf[i] == (old(b.pos) <= i && i < old(b.pos) + len(p) ? old(elems(p))[p.off + i - old(b.pos)] : old(elems(b.buf))[old(b.buf.off) + i])
  ensures [source] elems(p) == old(elems(p))

func (*SeekableBuffer).Seek(b, offset, whence) (n int, err error)
  props C20
  requires bok(*b) && 0 - 4611686018427387904 < offset && offset < 4611686018427387904
  modifies b.pos
  let target = whence == 0 ? offset : whence == 1 ? b.pos + offset : whence == 2 ? len(b.buf) + offset : b.pos
  ensures [clamped] err == nil && n == b.pos && b.pos == max(0, min(target, len(b.buf)))

func (*SeekableBuffer).Read(b, p) (n int, err error)
  props C20
  requires bok(*b) && arr(p) != arr(b.buf)
  modifies b.pos, elems(p)
  ensures [count] n == min(len(p), len(b.buf) - old(b.pos)) && b.pos == old(b.pos) + n
  ensures [end] old(b.pos) < len(b.buf) ==> err == nil
  ensures [eof] old(b.pos) >= len(b.buf) ==> err == io.EOF
  ensures [data] elems(p) == copyin(old(elems(p)), p.off, elems(b.buf), b.buf.off + old(b.pos), n)

func (*SeekableBuffer).Bytes(b) (r)
  props C20
  ensures r == b.buf

func NewSeekableBuffer() (r *SeekableBuffer)
  props C20
  ensures r != 0 && fresh(r) && bok(*r) && len(r.buf) == 0 && r.pos == 0

package mmap
// The file as the operating system keeps it, relative to the mapping: its size and
// the last write made through the file descriptor.
ghost fsize int
ghost pwoff int
ghost pwlen int
ghost pwdata [int]int
ghost fcont [int]int     // the file's content before that write, while nothing is mapped
extern (*os.File).WriteAt(f, b, off) (n int, err error)
  requires f != 0
  modifies fsize, pwoff, pwlen, pwdata
  ensures 0 <= n && n <= len(b)
  ensures err == nil ==> off >= 0 && fsize == max(old(fsize), off + len(b)) && pwoff == off && pwlen == len(b)
  ensures err == nil ==> forall i int {pwdata[i]} :: 0 <= i && i < len(b) ==> pwdata[i] == b[i]
  ensures len(b) > 0 && n < len(b) ==> err != nil
extern (*os.File).Stat(f) (fi, err error)
  ensures err == nil ==> fi != 0
extern (fs.FileInfo).Size(fi) (n int)
  ensures n == fsize && n >= 0
extern (*os.File).Fd(f) (fd)
extern (*os.File).Close(f) (err)
extern fmt.Errorf(format, a) (err error)
  ensures err != nil
// A new shared mapping shows the file.
extern unix.Mmap(fd, offset, length, prot, flags) (r, err error)
  allocates
  ensures err != nil ==> r == nil
  ensures err == nil ==> fresh(r) && len(r) == length && cap(r) == length && length > 0
  ensures err == nil ==> forall i int {r[i]} :: 0 <= i && i < length ==> r[i] == (pwoff <= i && i < pwoff + pwlen ? pwdata[i - pwoff] : fcont[i])
// Growing a shared mapping keeps what it showed and adds what was written to the file since.
extern unix.Mremap(om, size, flags) (r, err error)
  allocates
  ensures err == nil ==> fresh(r) && len(r) == size && cap(r) == size
  ensures err == nil ==> forall i int {r[i]} :: 0 <= i && i < size ==> r[i] == (pwoff <= i && i < pwoff + pwlen ? pwdata[i - pwoff] : i < len(om) ? om[i] : 0)

// The mapping covers the file and the cursor is inside it.
fn mok(m MemoryMappedFile, fs int) bool = m.file != 0 && 0 <= m.seek && m.seek <= len(m.bytes) && len(m.bytes) == fs && fs < 70368744177664 && (m.bytes.arr == 0 ==> fs == 0)

func mremap(oldAddress, fd, newSize, prot, flags) (r, err error)
  inline

func (*MemoryMappedFile).Seek(m, offset, whence) (n int, err error)
  props C20
  requires mok(*m, fsize) && 0 - 4611686018427387904 < offset && offset < 4611686018427387904
  modifies m.seek
  let target = whence == 0 ? offset : whence == 1 ? m.seek + offset : len(m.bytes) + offset
  ensures [accepted] err == nil <==> 0 <= whence && whence <= 2 && 0 <= target && target <= len(m.bytes)
  ensures [moved] err == nil ==> n == target && m.seek == target
  ensures [refused] err != nil ==> m.seek == old(m.seek)

func (*MemoryMappedFile).Read(m, b) (n int, err error)
  props C20
  requires mok(*m, fsize) && arr(b) != m.bytes.arr
  modifies m.seek, elems(b)
  ensures [count] n == min(len(b), len(m.bytes) - old(m.seek)) && m.seek == old(m.seek) + n
  ensures [end] n == len(b) ==> err == nil
  ensures [eof] n < len(b) ==> err == io.EOF
  ensures [data] elems(b) == copyin(old(elems(b)), b.off, elems(m.bytes), m.bytes.off + old(m.seek), n)

func (*MemoryMappedFile).ReadAt(m, b, off) (n int, err error)
  props C20
  requires mok(*m, fsize) && arr(b) != m.bytes.arr && 0 <= off && off <= len(m.bytes)
  modifies elems(b)
  ensures [count] n == min(len(b), len(m.bytes) - off)
  ensures [eof] n < len(b) <==> err == io.EOF
  ensures [end] n == len(b) ==> err == nil
  ensures [data] elems(b) == copyin(old(elems(b)), b.off, elems(m.bytes), m.bytes.off + off, n)

func (*MemoryMappedFile).WriteAt(m, b, off) (n int, err error)
  props C20
  requires m.bytes.arr == 0 ==> forall i int {fcont[i]} :: fcont[i] == 0
  requires mok(*m, fsize) && arr(b) != m.bytes.arr && 0 <= off && off < 70368744177664 && len(b) < 70368744177664
  modifies m.bytes, elems(m.bytes), fsize, pwoff, pwlen, pwdata
  ensures [all] err == nil ==> n == len(b)
  ensures [size] err == nil ==> len(m.bytes) == max(old(len(m.bytes)), off + len(b)) && fsize == len(m.bytes)
  ensures [data] err == nil ==> forall i int {m.bytes[i]} :: 0 <= i && i < len(m.bytes) ==> m.bytes[i] == (off <= i && i < off + len(b) ? old(elems(b))[b.off + i - off] : i < old(len(m.bytes)) ? old(elems(m.bytes))[old(m.bytes.off) + i] : 0)
  ensures [source] elems(b) == old(elems(b))
  ensures [failed] err != nil ==> m.bytes == old(m.bytes) && elems(m.bytes) == old(elems(m.bytes))

func (*MemoryMappedFile).Write(m, b) (n int, err error)
  props C20
  requires m.bytes.arr == 0 ==> forall i int {fcont[i]} :: fcont[i] == 0
  requires mok(*m, fsize) && arr(b) != m.bytes.arr && len(b) < 70368744177664
  modifies m.bytes, m.seek, elems(m.bytes), fsize, pwoff, pwlen, pwdata
  ensures [all] err == nil ==> n == len(b)
  ensures [size] err == nil ==> len(m.bytes) == max(old(len(m.bytes)), old(m.seek) + len(b)) && fsize == len(m.bytes)
  ensures [cursor] err == nil ==> m.seek == old(m.seek) + len(b)
  ensures [data] err == nil ==> forall i int {m.bytes[i]} :: 0 <= i && i < len(m.bytes) ==> m.bytes[i] == (old(m.seek) <= i && i < old(m.seek) + len(b) ? old(elems(b))[b.off + i - old(m.seek)] : old(elems(m.bytes))[old(m.bytes.off) + i])
  ensures [source] elems(b) == old(elems(b))
  ensures [failed] err != nil ==> m.seek == old(m.seek) && m.bytes == old(m.bytes)

func NewMemoryMappedFile(f, prot) (r *MemoryMappedFile, err error)
  props C20
  requires f != 0 && pwlen == 0 && 0 <= fsize && fsize < 70368744177664
  ensures [start] err == nil ==> fresh(r) && mok(*r, fsize) && r.seek == 0 && r.file == f
  ensures [content] err == nil ==> forall i int {r.bytes[i]} :: 0 <= i && i < fsize ==> r.bytes[i] == fcont[i]
