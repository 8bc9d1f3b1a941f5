// byteReader primitives: big-endian values at the current position of the stream.
def rd(r) = r.reader != nil && r.rs != nil && insync(r)
def rdsame(r) = r.reader != nil && r.rs != nil && (r.reader == old(r.reader) || fresh(r.reader))

func newByteReader
  requires rs != nil
  modifies stream(rs)
  ensures rd(ret0) && ret0.rs == rs && fresh(ret0) && fresh(ret0.reader)
  ensures pos(ret0) == old(pos(rs))

func (*byteReader).SeekTo
  requires rd(r) && offset >= 0
  modifies reader(r), r.reader
  ensures [C06,C18] pos: err == nil ==> pos(r) == offset
  ensures rdsame(r)
  ensures err == nil ==> rd(r)
  ensures [C03] works: reliable(r) ==> err == nil

func (byteReader).Offset
  requires rd(r)
  modifies reader(r)
  ensures rd(r)
  ensures pos(r) == old(pos(r))
  ensures reliable(r) ==> ret0 == pos(r)

func (*byteReader).Skip
  requires rd(r) && n >= 0
  modifies reader(r)
  ensures [C04] err == nil ==> pos(r) == old(pos(r)) + n && pos(r) <= flen(r)
  ensures rd(r)

func (*byteReader).readBytes
  requires rd(r) && length >= 0
  modifies reader(r), *bp
  ensures rd(r)
  ensures [C05,C06,C14] len: err == nil ==> len(*bp) == length && pos(r) == old(pos(r)) + length
  ensures err == nil && length > 0 ==> pos(r) <= flen(r)
  ensures [C05,C06,C14] bytes: err == nil ==> forall(k, 0, length, (*bp)[k] == fbyte(r, old(pos(r))+k))

func (byteReader).readUint8
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == u8(r, old(pos(r))) && pos(r) == old(pos(r)) + 1 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readInt8
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == i8(r, old(pos(r))) && pos(r) == old(pos(r)) + 1 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readUint16
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == u16(r, old(pos(r))) && pos(r) == old(pos(r)) + 2 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readInt16
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == i16(r, old(pos(r))) && pos(r) == old(pos(r)) + 2 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readUint32
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == u32(r, old(pos(r))) && pos(r) == old(pos(r)) + 4 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readInt32
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == i32(r, old(pos(r))) && pos(r) == old(pos(r)) + 4 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readFword
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == i16(r, old(pos(r))) && pos(r) == old(pos(r)) + 2 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readUfword
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == u16(r, old(pos(r))) && pos(r) == old(pos(r)) + 2 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readF2dot14
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == i16(r, old(pos(r))) && pos(r) == old(pos(r)) + 2 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readFixed
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == i32(r, old(pos(r))) && pos(r) == old(pos(r)) + 4 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readLongdatetime
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == i64(r, old(pos(r))) && pos(r) == old(pos(r)) + 8 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readOffset16
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == u16(r, old(pos(r))) && pos(r) == old(pos(r)) + 2 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readOffset32
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == u32(r, old(pos(r))) && pos(r) == old(pos(r)) + 4 && pos(r) <= flen(r)
  ensures rd(r)

func (byteReader).readTag
  requires rd(r)
  modifies reader(r)
  ensures [C04] val: err == nil ==> ret0 == u32(r, old(pos(r))) && pos(r) == old(pos(r)) + 4 && pos(r) <= flen(r)
  ensures rd(r)

func (*byteReader).readSlice [slice=*[]uint8]
  requires rd(r) && *slice == nil
  modifies reader(r), *slice
  inv len(*slice) > 0 ==> pos(r) <= flen(r)
  inv forall(k, 0, len(*slice), (*slice)[k] == u8(r, old(pos(r))+1*k))
  ensures rd(r)
  ensures [C05,C18] len: err == nil ==> len(*slice) == max(length,0) && pos(r) == old(pos(r)) + 1*max(length,0)
  ensures err == nil && length > 0 ==> pos(r) <= flen(r)
  ensures [C05] elems: err == nil ==> forall(k, 0, length, (*slice)[k] == u8(r, old(pos(r))+1*k))

func (*byteReader).readSlice [slice=*[]int8]
  requires rd(r) && *slice == nil
  modifies reader(r), *slice
  inv len(*slice) > 0 ==> pos(r) <= flen(r)
  inv forall(k, 0, len(*slice), (*slice)[k] == i8(r, old(pos(r))+1*k))
  ensures rd(r)
  ensures [C05,C18] len: err == nil ==> len(*slice) == max(length,0) && pos(r) == old(pos(r)) + 1*max(length,0)
  ensures err == nil && length > 0 ==> pos(r) <= flen(r)
  ensures [C05] elems: err == nil ==> forall(k, 0, length, (*slice)[k] == i8(r, old(pos(r))+1*k))

func (*byteReader).readSlice [slice=*[]uint16]
  requires rd(r) && *slice == nil
  modifies reader(r), *slice
  inv len(*slice) > 0 ==> pos(r) <= flen(r)
  inv forall(k, 0, len(*slice), (*slice)[k] == u16(r, old(pos(r))+2*k))
  ensures rd(r)
  ensures [C05,C18] len: err == nil ==> len(*slice) == max(length,0) && pos(r) == old(pos(r)) + 2*max(length,0)
  ensures err == nil && length > 0 ==> pos(r) <= flen(r)
  ensures [C05] elems: err == nil ==> forall(k, 0, length, (*slice)[k] == u16(r, old(pos(r))+2*k))

func (*byteReader).readSlice [slice=*[]int16]
  requires rd(r) && *slice == nil
  modifies reader(r), *slice
  inv len(*slice) > 0 ==> pos(r) <= flen(r)
  inv forall(k, 0, len(*slice), (*slice)[k] == i16(r, old(pos(r))+2*k))
  ensures rd(r)
  ensures [C05,C18] len: err == nil ==> len(*slice) == max(length,0) && pos(r) == old(pos(r)) + 2*max(length,0)
  ensures err == nil && length > 0 ==> pos(r) <= flen(r)
  ensures [C05] elems: err == nil ==> forall(k, 0, length, (*slice)[k] == i16(r, old(pos(r))+2*k))

func (*byteReader).readSlice [slice=*[]offset16]
  requires rd(r) && *slice == nil
  modifies reader(r), *slice
  inv len(*slice) > 0 ==> pos(r) <= flen(r)
  inv forall(k, 0, len(*slice), (*slice)[k] == u16(r, old(pos(r))+2*k))
  ensures rd(r)
  ensures [C05,C18] len: err == nil ==> len(*slice) == max(length,0) && pos(r) == old(pos(r)) + 2*max(length,0)
  ensures err == nil && length > 0 ==> pos(r) <= flen(r)
  ensures [C05] elems: err == nil ==> forall(k, 0, length, (*slice)[k] == u16(r, old(pos(r))+2*k))

func (*byteReader).readSlice [slice=*[]offset32]
  requires rd(r) && *slice == nil
  modifies reader(r), *slice
  inv len(*slice) > 0 ==> pos(r) <= flen(r)
  inv forall(k, 0, len(*slice), (*slice)[k] == u32(r, old(pos(r))+4*k))
  ensures rd(r)
  ensures [C05,C18] len: err == nil ==> len(*slice) == max(length,0) && pos(r) == old(pos(r)) + 4*max(length,0)
  ensures err == nil && length > 0 ==> pos(r) <= flen(r)
  ensures [C05] elems: err == nil ==> forall(k, 0, length, (*slice)[k] == u32(r, old(pos(r))+4*k))
