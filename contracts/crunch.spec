# Contracts of crunch, keyed by function.  Syntax: see contracts/README.md.
#
# Every contract is an equation over the state before the call.  What a contract
# does not mention (buffer bytes, both cursors, the buffer header, any other
# memory) must be unchanged by the call.  For a method the receiver b satisfies
# the representation invariant before and must satisfy it after:
#
invariant b.cap == len(b) and b.bcap == 8 * len(b)
#
# `panics E when c`  : checked Buffer rejects with exactly the error E (if more
#                      than one such condition holds, either error is right);
#                      MiniBuffer does not check, so there it is a precondition.
# `rejects E when c` : as panics, for both types.
# `panics any when c`: any panic; a precondition for MiniBuffer.
# In-range calls return normally.  A panic changes nothing, except as stated by
# `onpanic`.

errors BufferOverreadError BufferUnderreadError BufferOverwriteError BufferUnderwriteError BufferInvalidByteCountError
errors[v1] BufferInvalidIntegerSizeError BufferInvalidEndiannessError BufferInvalidBitError
errors[v2] BufferInvalidBitError

# ------------------------------------------------------------------ error values
# (*)Error.Error() returns "crunch: " ++ scope ++ ": " ++ message and changes
# nothing; the exported error values are these, for ever.
errortext BufferOverreadError buffer: read exceeds buffer capacity
errortext BufferUnderreadError buffer: read offset is less than zero
errortext BufferOverwriteError buffer: write offset exceeds buffer capacity
errortext BufferUnderwriteError buffer: write offset is less than zero
errortext BufferInvalidByteCountError buffer: invalid byte count requested
errortext[v1] BufferInvalidIntegerSizeError buffer: invalid integer size specified
errortext[v1] BufferInvalidEndiannessError buffer: invalid endianness specified
errortext[v1,v2] BufferInvalidBitError buffer: invalid bit value specified
errortext[v3] BytesBufNegativeReadError bytesbuf: reader returned negative count from Read

# ------------------------------------------------------------------ single bits
contract ReadBit(off int64)
  group bit1 read
  panics BufferOverreadError when off >= b.bcap
  panics BufferUnderreadError when off < 0
  returns uint8 := bit(off)

contract[v1,v2] SetBit(off int64, data uint8)
  group bit1 write
  panics BufferOverwriteError when off >= b.bcap
  panics BufferUnderwriteError when off < 0
  rejects BufferInvalidBitError when data > 1
  writebits y in off .. off + 1 := bitof(data, 0)

contract[v3] SetBit(off int64)
  group bit1 write
  panics BufferOverwriteError when off >= b.bcap
  panics BufferUnderwriteError when off < 0
  writebits y in off .. off + 1 := 1

contract[v3] ClearBit(off int64)
  group bit1 write
  panics BufferOverwriteError when off >= b.bcap
  panics BufferUnderwriteError when off < 0
  writebits y in off .. off + 1 := 0

contract FlipBit(off int64)
  group bit1 write
  panics BufferOverwriteError when off >= b.bcap
  panics BufferUnderwriteError when off < 0
  writebits y in off .. off + 1 := flip(bit(y))

next ReadBitNext() = ReadBit(b.boff) advance boff 1
next[v1,v2] SetBitNext(data uint8) = SetBit(b.boff, data) advance boff 1
next[v3] SetBitNext() = SetBit(b.boff) advance boff 1
next[v3] ClearBitNext() = ClearBit(b.boff) advance boff 1
next FlipBitNext() = FlipBit(b.boff) advance boff 1

# ------------------------------------------------------------------ runs of bits
contract ReadBits(off int64, n int64)
  group bits read
  requires n >= 0
  panics BufferOverreadError when n > 0 and off + n > b.bcap
  panics BufferUnderreadError when n > 0 and off < 0
  returns bits64 j := bit(off + n - 1 - j) if j < n else 0

contract SetBits(off int64, data uint64, n int64)
  group bits write
  requires n >= 0
  panics BufferOverwriteError when n > 0 and off + n > b.bcap
  panics BufferUnderwriteError when n > 0 and off < 0
  writebits y in off .. off + n := bitof(data, n - 1 - (y - off))
  onpanic bits off .. off + n

next ReadBitsNext(n int64) = ReadBits(b.boff, n) advance boff n
next SetBitsNext(data uint64, n int64) = SetBits(b.boff, data, n) advance boff n

# ------------------------------------------------------------------ all bits
contract ClearAllBits()
  group allbits write
  write x in 0 .. len(b) := 0

contract SetAllBits()
  group allbits write
  write x in 0 .. len(b) := 255

contract FlipAllBits()
  group allbits write
  write x in 0 .. len(b) := flip8(b[x])

# ------------------------------------------------------------------ cursors
contract SeekBit(off int64, relative bool)
  group seek
  set boff := wrap(b.boff + off) if relative else off

contract {Seek}(off int64, relative bool)
  group seek
  set off := wrap(b.off + off) if relative else off

contract AfterBit(off ...int64)
  group after read
  returns int64 := wrap(b.bcap - (off[0] if len(off) > 0 else b.boff) - 1)

contract {After}(off ...int64)
  group after read
  returns int64 := wrap(b.cap - (off[0] if len(off) > 0 else b.off) - 1)

contract AlignBit()
  group align
  set boff := wrap(b.off * 8)

contract AlignByte()
  group align
  set off := tdiv(b.boff, 8)

# ------------------------------------------------------------------ raw bytes
contract WriteBytes(off int64, data []uint8)
  group raw write
  panics BufferOverwriteError when off + len(data) > b.cap
  panics BufferUnderwriteError when off < 0
  write x in off .. off + len(data) := data[x - off]

contract WriteByte(off int64, data uint8)
  group raw write
  only Buffer
  panics BufferOverwriteError when off + 1 > b.cap
  panics BufferUnderwriteError when off < 0
  write x in off .. off + 1 := data

contract ReadBytes(off int64, n int64)
  group raw read
  panics BufferOverreadError when off + n > b.cap
  panics BufferUnderreadError when off < 0
  panics any when n < 0
  returns window off .. off + n

contract ReadByte(off int64)
  group raw read
  only Buffer
  panics BufferOverreadError when off + 1 > b.cap
  panics BufferUnderreadError when off < 0
  returns uint8 := b[off]

next WriteBytesNext(data []uint8) = WriteBytes(b.off, data) advance off len(data)
next WriteByteNext(data uint8) = WriteByte(b.off, data) advance off 1
next ReadBytesNext(n int64) = ReadBytes(b.off, n) advance off n
next ReadByteNext() = ReadByte(b.off) advance off 1

# ------------------------------------------------------------------ typed values
family[v3] K,T,w = I16,int16,2 I32,int32,4 I64,int64,8 F32,float32,4 F64,float64,8
family[v2,v3] K,T,w = U16,uint16,2 U32,uint32,4 U64,uint64,8
family E = LE BE

contract Write<K><E>(off int64, data []<T>)
  group typed write
  panics BufferOverwriteError when off + <w> * len(data) > b.cap
  panics BufferUnderwriteError when off < 0
  write x in off .. off + <w> * len(data) := byte<E>(data[(x - off) // <w>], (x - off) % <w>, <w>)

contract Read<K><E>(off int64, n int64)
  group typed read
  panics BufferOverreadError when off + <w> * n > b.cap
  panics BufferUnderreadError when off < 0
  panics any when n < 0
  returns fresh <T> n i := load<E>(off + <w> * i, <w>)

next Write<K><E>Next(data []<T>) = Write<K><E>(b.off, data) advance off <w> * len(data)
next Read<K><E>Next(n int64) = Read<K><E>(b.off, n) advance off <w> * n

endfamily

# ------------------------------------------------------------------ v1: ReadComplex, WriteComplex
# One behaviour per integer size, element type and byte order.
family[v1] K,T,w = U16,uint16,2 U32,uint32,4 U64,uint64,8
family E,ord = LE,encoding/binary.littleEndian BE,encoding/binary.bigEndian

contract WriteComplex@<K><E>(off int64, data interface{[]<T>}, size IntegerSize{<w>}, endian ByteOrder{<ord>})
  group typed write
  panics BufferOverwriteError when off + <w> * len(data) > b.cap
  panics BufferUnderwriteError when off < 0
  write x in off .. off + <w> * len(data) := byte<E>(data[(x - off) // <w>], (x - off) % <w>, <w>)

contract ReadComplex@<K><E>(off int64, n int64, size IntegerSize{<w>}, endian ByteOrder{<ord>})
  group typed read
  panics BufferOverreadError when off + <w> * n > b.cap
  panics BufferUnderreadError when off < 0
  panics any when n < 0
  returns ifresh <T> n i := load<E>(off + <w> * i, <w>)

next WriteComplexNext@<K><E>(data interface{[]<T>}, size IntegerSize{<w>}, endian ByteOrder{<ord>}) = WriteComplex@<K><E>(b.off, data, size, endian) advance off <w> * len(data)
next ReadComplexNext@<K><E>(n int64, size IntegerSize{<w>}, endian ByteOrder{<ord>}) = ReadComplex@<K><E>(b.off, n, size, endian) advance off <w> * n

endfamily

family[v1] E,ord = LE,encoding/binary.littleEndian BE,encoding/binary.bigEndian

contract WriteComplex@U8<E>(off int64, data interface{[]uint8}, size IntegerSize{1}, endian ByteOrder{<ord>})
  group raw write
  panics BufferOverwriteError when off + len(data) > b.cap
  panics BufferUnderwriteError when off < 0
  write x in off .. off + len(data) := data[x - off]

contract ReadComplex@U8<E>(off int64, n int64, size IntegerSize{1}, endian ByteOrder{<ord>})
  group raw read
  panics BufferOverreadError when off + n > b.cap
  panics BufferUnderreadError when off < 0
  panics any when n < 0
  returns iwindow off .. off + n

# a size that is none of 1, 2, 4, 8
contract WriteComplex@badsize<E>(off int64, data interface{[]uint8}, size IntegerSize, endian ByteOrder{<ord>})
  group badsize write
  requires size != 1 and size != 2 and size != 4 and size != 8
  panics BufferOverwriteError when off + len(data) > b.cap
  panics BufferUnderwriteError when off < 0
  rejects BufferInvalidIntegerSizeError when True

contract ReadComplex@badsize<E>(off int64, n int64, size IntegerSize, endian ByteOrder{<ord>})
  group badsize read
  requires size != 1 and size != 2 and size != 4 and size != 8
  panics BufferOverreadError when off + n > b.cap
  panics BufferUnderreadError when off < 0
  panics any when n < 0
  rejects BufferInvalidIntegerSizeError when True
  returns nothing

next WriteComplexNext@U8<E>(data interface{[]uint8}, size IntegerSize{1}, endian ByteOrder{<ord>}) = WriteComplex@U8<E>(b.off, data, size, endian) advance off len(data)
next ReadComplexNext@U8<E>(n int64, size IntegerSize{1}, endian ByteOrder{<ord>}) = ReadComplex@U8<E>(b.off, n, size, endian) advance off n
next WriteComplexNext@badsize<E>(data interface{[]uint8}, size IntegerSize, endian ByteOrder{<ord>}) = WriteComplex@badsize<E>(b.off, data, size, endian) advance off 0
next ReadComplexNext@badsize<E>(n int64, size IntegerSize, endian ByteOrder{<ord>}) = ReadComplex@badsize<E>(b.off, n, size, endian) advance off 0

endfamily

# ------------------------------------------------------------------ size changes
contract Grow(n int64)
  group grow
  panics BufferInvalidByteCountError when n < 0
  maypanic any when n > 1099511627776 or storage(b) > 1099511627776
  grow n

contract[v3] TruncateLeft(n int64)
  group trunc
  panics BufferInvalidByteCountError when n < 0
  panics any when n > b.cap
  rebuf n .. len(b)

contract[v3] TruncateRight(n int64)
  group trunc
  panics BufferInvalidByteCountError when n < 0
  panics any when n > b.cap
  rebuf 0 .. len(b) - n

contract[v2,v3] Reset()
  group reset
  rebuf 0 .. 0
  set off := 0
  set boff := 0

contract Refresh()
  group refresh
  noinvariant

# ------------------------------------------------------------------ accessors
contract Bytes()
  group accessor read
  returns window 0 .. len(b)

contract {Capacity}()
  group accessor read
  returns int64 := b.cap

contract BitCapacity()
  group accessor read
  returns int64 := b.bcap

contract {Offset}()
  group accessor read
  returns int64 := b.off

contract BitOffset()
  group accessor read
  returns int64 := b.boff

names[v1,v2] Seek=Seek After=After Capacity=Capacity Offset=Offset
names[v3] Seek=SeekByte After=AfterByte Capacity=ByteCapacity Offset=ByteOffset

# ------------------------------------------------------------------ construction
constructor NewBuffer(slices ...[]uint8)
constructor NewMiniBuffer(slices ...[]uint8)
