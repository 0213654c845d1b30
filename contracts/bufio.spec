# bufio: byte reader and writer (C01, C02)

def bbOK(b) = 0 <= b.offset && b.offset <= b.length && b.length == len(b.data)
def fits(b, n) = 0 <= b.offset + n && b.offset + n <= b.length

func bufio.bytesBuffer.peekN(b, size) (err)
  tags C01 C02
  requires bbOK(b)
  modifies b.offset
  ensures [fits] (err == nil) <==> old(fits(b, size))
  ensures [moves] err == nil ==> b.offset == old(b.offset) + size
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesBuffer.setData(b, data)
  tags C01 C02
  modifies b.data, b.offset, b.length
  ensures same(b.data, data) && b.offset == 0 && b.length == len(data)
  ensures bbOK(b)

func bufio.bytesBuffer.Reset(b, data)
  tags C01 C02
  modifies b.data, b.offset, b.length
  ensures same(b.data, data) && b.offset == 0 && b.length == len(data)
  ensures bbOK(b)

func bufio.bytesBuffer.Seek(b, size) (err)
  tags C01 C02
  requires bbOK(b)
  modifies b.offset
  ensures [fits] (err == nil) <==> old(fits(b, size))
  ensures [moves] err == nil ==> b.offset == old(b.offset) + size
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesBuffer.SeekBack(b, size) (err)
  tags C01 C02
  requires bbOK(b)
  modifies b.offset
  ensures [fits] (err == nil) <==> old(fits(b, -size))
  ensures [moves] err == nil ==> b.offset == old(b.offset) - size
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesBuffer.Offset(b) (r)
  tags C01 C02
  opt pure
  ensures r == b.offset

func bufio.bytesBuffer.RemainingBytes(b) (r)
  tags C01 C02
  opt pure
  requires bbOK(b)
  ensures same(r, b.data[b.offset:])

func bufio.bytesBuffer.ReadableBytes(b) (r)
  tags C01 C02
  opt pure
  requires bbOK(b)
  ensures r == len(b.data) - b.offset

func bufio.bytesBuffer.Clear(b)
  tags C01 C02
  requires bbOK(b)
  modifies b.offset
  ensures b.offset == 0 && bbOK(b)

func bufio.NewBytesReader(data) (r)
  tags C01
  dyn r *bufio.bytesReader
  ensures typeis(r, *bufio.bytesReader) && fresh(r)
  ensures same(as(r, *bufio.bytesReader).data, data) && as(r, *bufio.bytesReader).offset == 0
  ensures bbOK(as(r, *bufio.bytesReader))

func bufio.bytesReader.ReadUint8(b) (v, err)
  tags C01
  requires bbOK(b)
  modifies b.offset
  ensures [fits] (err == nil) <==> old(fits(b, 1))
  ensures [value] err == nil ==> v == old(b.data[b.offset]) && b.offset == old(b.offset) + 1
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesReader.ReadUint16(b) (v, err)
  tags C01
  requires bbOK(b)
  modifies b.offset
  ensures [fits] (err == nil) <==> old(fits(b, 2))
  ensures [value] err == nil ==> v == be16(bytes(b.data), off(b.data) + old(b.offset)) && b.offset == old(b.offset) + 2
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesReader.ReadUint24(b) (v, err)
  tags C01
  requires bbOK(b)
  modifies b.offset
  ensures [fits] (err == nil) <==> old(fits(b, 3))
  ensures [value] err == nil ==> v == be24(bytes(b.data), off(b.data) + old(b.offset)) && b.offset == old(b.offset) + 3
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesReader.ReadUint32(b) (v, err)
  tags C01
  requires bbOK(b)
  modifies b.offset
  ensures [fits] (err == nil) <==> old(fits(b, 4))
  ensures [value] err == nil ==> v == be32(bytes(b.data), off(b.data) + old(b.offset)) && b.offset == old(b.offset) + 4
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesReader.ReadUint64(b) (v, err)
  tags C01
  requires bbOK(b)
  modifies b.offset
  ensures [fits] (err == nil) <==> old(fits(b, 8))
  ensures [value] err == nil ==> v == be64(bytes(b.data), off(b.data) + old(b.offset)) && b.offset == old(b.offset) + 8
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesReader.ReadBytes(b, size) (r, err)
  tags C01
  requires bbOK(b)
  modifies b.offset
  ensures [fits] (err == nil) <==> size >= 0 && old(fits(b, size))
  ensures [value] err == nil ==> same(r, old(b.data[b.offset : b.offset + size])) && b.offset == old(b.offset) + size
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.Uint24(data) (v)
  tags C01 C03
  opt pure
  requires len(data) >= 3
  ensures v == be24(bytes(data), off(data))

func bufio.PutUint24(dst, src)
  tags C03
  opt pure
  requires len(dst) >= 3
  modifies elems(dst, 0, 3)
  ensures be24(bytes(dst), off(dst)) == src % 16777216

func bufio.MinInt(a, b) (r)
  opt pure
  ensures r == min(a, b)

func bufio.MaxInt(a, b) (r)
  opt pure
  ensures r == max(a, b)

func bufio.NewBytesWriter(data) (r)
  tags C02
  dyn r *bufio.bytesWriter
  ensures typeis(r, *bufio.bytesWriter) && fresh(r)
  ensures same(as(r, *bufio.bytesWriter).data, data) && as(r, *bufio.bytesWriter).offset == 0
  ensures bbOK(as(r, *bufio.bytesWriter))


func bufio.bytesWriter.WriteUint8(b, data) (err)
  tags C02
  requires bbOK(b)
  modifies b.offset
  modifies elems(b.data, b.offset, b.offset + 1) if fits(b, 1)
  ensures [fits] (err == nil) <==> old(fits(b, 1))
  ensures [value] err == nil ==> b.data[old(b.offset)] == data && b.offset == old(b.offset) + 1
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesWriter.WriteUint16(b, data) (err)
  tags C02
  requires bbOK(b)
  modifies b.offset
  modifies elems(b.data, b.offset, b.offset + 2) if fits(b, 2)
  ensures [fits] (err == nil) <==> old(fits(b, 2))
  ensures [value] err == nil ==> be16(bytes(b.data), off(b.data) + old(b.offset)) == data && b.offset == old(b.offset) + 2
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesWriter.WriteUint32(b, data) (err)
  tags C02
  requires bbOK(b)
  modifies b.offset
  modifies elems(b.data, b.offset, b.offset + 4) if fits(b, 4)
  ensures [fits] (err == nil) <==> old(fits(b, 4))
  ensures [value] err == nil ==> be32(bytes(b.data), off(b.data) + old(b.offset)) == data && b.offset == old(b.offset) + 4
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesWriter.WriteUint64(b, data) (err)
  tags C02
  requires bbOK(b)
  modifies b.offset
  modifies elems(b.data, b.offset, b.offset + 8) if fits(b, 8)
  ensures [fits] (err == nil) <==> old(fits(b, 8))
  ensures [value] err == nil ==> be64(bytes(b.data), off(b.data) + old(b.offset)) == data && b.offset == old(b.offset) + 8
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesWriter.Write(b, data) (err)
  tags C02
  requires bbOK(b)
  modifies b.offset
  modifies elems(b.data, b.offset, b.offset + len(data)) if fits(b, len(data))
  ensures [fits] (err == nil) <==> old(fits(b, len(data)))
  ensures [value] err == nil ==> b.offset == old(b.offset) + len(data) && all(i, 0, len(data), b.data[old(b.offset) + i] == old(data[i]))
  ensures [bytes] err == nil ==> all(q, off(b.data) + old(b.offset), off(b.data) + old(b.offset) + len(data), sel(bytes(b.data), q) == old(data[q - off(b.data) - old(b.offset)]))
  ensures [stays] err != nil ==> b.offset == old(b.offset)
  ensures bbOK(b)

func bufio.bytesWriter.WrittenBytes(b) (r)
  tags C02
  opt pure
  requires bbOK(b)
  ensures same(r, b.data[0 : b.offset])
