// byteWriter primitives: big-endian values appended to the buffer.
def kept(w) = forall(k, 0, old(bl(w)), b8(w, k) == old(b8(w, k)))

func newByteWriter
  inline
  ensures fresh(ret0) && ret0.w == w && bl(ret0) == 0 && ret0.flushedLen == 0

func (*byteWriter).bufferedLen
  ensures [C02] ret0 == bl(w)

func (*byteWriter).writeBytes
  modifies buffer(w), w.len
  ensures [C05] len: bl(w) == old(bl(w)) + len(b)
  ensures [C05] bytes: forall(k, 0, len(b), b8(w, old(bl(w))+k) == old(b[k]))
  ensures kept(w)
  noerr

func (*byteWriter).writeUint32
  modifies buffer(w), w.len
  ensures [C04] val: b32(w, old(bl(w))) == u32(val) && bl(w) == old(bl(w)) + 4
  ensures kept(w)
  noerr

func (*byteWriter).writeFword
  modifies buffer(w), w.len
  ensures [C04] val: b16(w, old(bl(w))) == u16(val) && bl(w) == old(bl(w)) + 2
  ensures kept(w)
  noerr

func (*byteWriter).writeUfword
  modifies buffer(w), w.len
  ensures [C04] val: b16(w, old(bl(w))) == u16(val) && bl(w) == old(bl(w)) + 2
  ensures kept(w)
  noerr

func (*byteWriter).writeFixed
  modifies buffer(w), w.len
  ensures [C04] val: b32(w, old(bl(w))) == u32(val) && bl(w) == old(bl(w)) + 4
  ensures kept(w)
  noerr

func (*byteWriter).writeLongdatetime
  modifies buffer(w), w.len
  ensures [C04] val: b64(w, old(bl(w))) == u64(val) && bl(w) == old(bl(w)) + 8
  ensures kept(w)
  noerr

func (*byteWriter).writeOffset16
  modifies buffer(w), w.len
  ensures [C04] val: b16(w, old(bl(w))) == u16(val) && bl(w) == old(bl(w)) + 2
  ensures kept(w)
  noerr

func (*byteWriter).writeOffset32
  modifies buffer(w), w.len
  ensures [C04] val: b32(w, old(bl(w))) == u32(val) && bl(w) == old(bl(w)) + 4
  ensures kept(w)
  noerr

func (*byteWriter).writeTag
  modifies buffer(w), w.len
  ensures [C04] val: bl(w) == old(bl(w)) + 4 && b32(w, old(bl(w))) == val
  ensures kept(w)
  noerr

func (*byteWriter).writeSlice [slice=[]uint8]
  let s = as(slice, "[]uint8")
  modifies buffer(w), w.len
  inv bl(w) == old(bl(w)) + 1*iter
  inv kept(w)
  inv forall(k, 0, iter, b8(w, old(bl(w))+1*k) == u8(s[k]))
  ensures [C05] len: bl(w) == old(bl(w)) + 1*len(s)
  ensures [C05] elems: forall(k, 0, len(s), b8(w, old(bl(w))+1*k) == u8(s[k]))
  ensures kept(w)
  noerr

func (*byteWriter).writeSlice [slice=[]uint16]
  let s = as(slice, "[]uint16")
  modifies buffer(w), w.len
  inv bl(w) == old(bl(w)) + 2*iter
  inv kept(w)
  inv forall(k, 0, iter, b16(w, old(bl(w))+2*k) == u16(s[k]))
  ensures [C05] len: bl(w) == old(bl(w)) + 2*len(s)
  ensures [C05] elems: forall(k, 0, len(s), b16(w, old(bl(w))+2*k) == u16(s[k]))
  ensures kept(w)
  noerr

func (*byteWriter).writeSlice [slice=[]int16]
  let s = as(slice, "[]int16")
  modifies buffer(w), w.len
  inv bl(w) == old(bl(w)) + 2*iter
  inv kept(w)
  inv forall(k, 0, iter, b16(w, old(bl(w))+2*k) == u16(s[k]))
  ensures [C05] len: bl(w) == old(bl(w)) + 2*len(s)
  ensures [C05] elems: forall(k, 0, len(s), b16(w, old(bl(w))+2*k) == u16(s[k]))
  ensures kept(w)
  noerr

func (*byteWriter).writeSlice [slice=[]offset16]
  let s = as(slice, "[]offset16")
  modifies buffer(w), w.len
  inv bl(w) == old(bl(w)) + 2*iter
  inv kept(w)
  inv forall(k, 0, iter, b16(w, old(bl(w))+2*k) == u16(s[k]))
  ensures [C05] len: bl(w) == old(bl(w)) + 2*len(s)
  ensures [C05] elems: forall(k, 0, len(s), b16(w, old(bl(w))+2*k) == u16(s[k]))
  ensures kept(w)
  noerr

func (*byteWriter).writeSlice [slice=[]offset32]
  let s = as(slice, "[]offset32")
  modifies buffer(w), w.len
  inv bl(w) == old(bl(w)) + 4*iter
  inv kept(w)
  inv forall(k, 0, iter, b32(w, old(bl(w))+4*k) == u32(s[k]))
  ensures [C05] len: bl(w) == old(bl(w)) + 4*len(s)
  ensures [C05] elems: forall(k, 0, len(s), b32(w, old(bl(w))+4*k) == u32(s[k]))
  ensures kept(w)
  noerr
