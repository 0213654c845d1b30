# Trusted contracts on the Go standard library (assumptions: listed in every evidence file that uses them).

def be16(A: arr, i: int) = sel(A, i) * 256 + sel(A, i + 1)
def be24(A: arr, i: int) = sel(A, i) * 65536 + sel(A, i + 1) * 256 + sel(A, i + 2)
def be32(A: arr, i: int) = sel(A, i) * 16777216 + sel(A, i + 1) * 65536 + sel(A, i + 2) * 256 + sel(A, i + 3)
def be64(A: arr, i: int) = be32(A, i) * 4294967296 + be32(A, i + 4)

func binary.bigEndian.Uint16(r, b) (v)
  trusted encoding/binary
  opt pure
  requires len(b) >= 2
  ensures v == be16(bytes(b), off(b))

func binary.bigEndian.Uint32(r, b) (v)
  trusted encoding/binary
  opt pure
  requires len(b) >= 4
  ensures v == be32(bytes(b), off(b))

func binary.bigEndian.Uint64(r, b) (v)
  trusted encoding/binary
  opt pure
  requires len(b) >= 8
  ensures v == be64(bytes(b), off(b))

func binary.bigEndian.PutUint16(r, b, v)
  trusted encoding/binary
  opt pure
  requires len(b) >= 2
  modifies elems(b, 0, 2)
  ensures be16(bytes(b), off(b)) == v
  ensures b[0] == v / 256 && b[1] == v % 256

func binary.bigEndian.PutUint32(r, b, v)
  trusted encoding/binary
  opt pure
  requires len(b) >= 4
  modifies elems(b, 0, 4)
  ensures be32(bytes(b), off(b)) == v
  ensures b[0] == v / 16777216 && b[1] == v / 65536 % 256 && b[2] == v / 256 % 256 && b[3] == v % 256

func binary.bigEndian.PutUint64(r, b, v)
  trusted encoding/binary
  opt pure
  requires len(b) >= 8
  modifies elems(b, 0, 8)
  ensures be64(bytes(b), off(b)) == v
  ensures b[0] == v / 72057594037927936 && b[1] == v / 281474976710656 % 256 && b[2] == v / 1099511627776 % 256 && b[3] == v / 4294967296 % 256
  ensures b[4] == v / 16777216 % 256 && b[5] == v / 65536 % 256 && b[6] == v / 256 % 256 && b[7] == v % 256

func utils.Assert(ok)
  tags C05 C06 C07 C09
  opt pure
  requires ok
  refuses !ok

func runtime.Callers(skip, pc) (n)
  trusted runtime: only the message of the panic depends on it
  modifies elems(pc)
  ensures 0 <= n && n <= len(pc)

func runtime.CallersFrames(pc) (f)
  trusted runtime: only the message of the panic depends on it
  ensures f != nil

func runtime.Frames.Next(f) (frame, more)
  trusted runtime: only the message of the panic depends on it
