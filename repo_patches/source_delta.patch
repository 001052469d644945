From b52573cd8b82e4ca9a103457db6196ff96a23fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 1/8] fix: make zero-length reads, writes and bit operations
 no-ops

The transfer loops of v2 and v3 (and the code generator's) ran their body
before testing the count, so an operation on zero elements accessed the first
one: it panicked at the end of a buffer, wrote a bit, or read one too many.
---
 generation/complex.go   |  6 ++--
 v2/buffer.go            | 34 +++++++++----------
 v2/minibuf.go           | 34 +++++++++----------
 v3/_buffer.go           | 10 +++---
 v3/_minibuf.go          | 10 +++---
 v3/buffer.generated.go  | 74 ++++++++++++++++++++---------------------
 v3/minibuf.generated.go | 74 ++++++++++++++++++++---------------------
 7 files changed, 121 insertions(+), 121 deletions(-)

diff --git a/generation/complex.go b/generation/complex.go
index c493a25..17c4f8e 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -40,7 +40,7 @@ import (
 // 			i = 0
 // 			n = len(data)
 // 		)
-// 		{
+// 		if i < n {
 // 		<read | write>_loop:
 // 			/** generate lines that look like the following for the number of bits to convert **/
 // 			b.buf[off+int64(i*<number of bits / 8>)] = byte(data[i] <add >> <(line of this section - 1) * 8> for each line after line 0>)
@@ -215,7 +215,7 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 						body.Var().Id("u").Id(strings.Join([]string{"uint", arguments[3]}, ""))
 					}
 
-					body.BlockFunc(func(loop *jen.Group) {
+					body.If(jen.Id("i").Op("<").Id("n")).BlockFunc(func(loop *jen.Group) {
 						loop.Id("read_loop:")
 
 						if arguments[2] == "F" {
@@ -309,7 +309,7 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 					// write generation code
 					body.Id("i").Op(":=").Lit(0)
 					body.Id("n").Op(":=").Len(jen.Id("data"))
-					body.BlockFunc(func(loop *jen.Group) {
+					body.If(jen.Id("i").Op("<").Id("n")).BlockFunc(func(loop *jen.Group) {
 						loop.Id("write_loop:")
 						if arguments[4] == "BE" {
 							if arguments[2] == "U" || arguments[2] == "I" {
diff --git a/v2/buffer.go b/v2/buffer.go
index b248125..8cc2265 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -86,7 +86,7 @@ func (b *Buffer) readbits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
-	{
+	if i < n {
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.readbit(off+i))
 		i++
@@ -139,7 +139,7 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
-	{
+	if i < n {
 	write_loop:
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
 		i++
@@ -184,7 +184,7 @@ func (b *Buffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	clear_loop:
 		b.buf[i] = 0
 		i++
@@ -207,7 +207,7 @@ func (b *Buffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	set_loop:
 		b.buf[i] = 0xFF
 		i++
@@ -230,7 +230,7 @@ func (b *Buffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
 		i++
@@ -333,7 +333,7 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
 		b.buf[off+int64(1+(i*2))] = byte(data[i] >> 8)
@@ -371,7 +371,7 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
 		b.buf[off+int64(1+(i*2))] = byte(data[i])
@@ -409,7 +409,7 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 8)
@@ -449,7 +449,7 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 16)
@@ -489,7 +489,7 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 8)
@@ -533,7 +533,7 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 48)
@@ -599,7 +599,7 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 	defer b.Unlock()
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint16(b.buf[off+(i*2)]) |
 			uint16(b.buf[off+(1+(i*2))])<<8
@@ -637,7 +637,7 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 	defer b.Unlock()
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint16(b.buf[off+(1+(i*2))]) |
 			uint16(b.buf[off+(i*2)])<<8
@@ -675,7 +675,7 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 	defer b.Unlock()
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint32(b.buf[off+(i*4)]) |
 			uint32(b.buf[off+(1+(i*4))])<<8 |
@@ -715,7 +715,7 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 	defer b.Unlock()
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint32(b.buf[off+(3+(i*4))]) |
 			uint32(b.buf[off+(2+(i*4))])<<8 |
@@ -755,7 +755,7 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 	defer b.Unlock()
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint64(b.buf[off+(i*8)]) |
 			uint64(b.buf[off+(1+(i*8))])<<8 |
@@ -798,7 +798,7 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 	b.Lock()
 	defer b.Unlock()
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint64(b.buf[off+(7+(i*8))]) |
 			uint64(b.buf[off+(6+(i*8))])<<8 |
diff --git a/v2/minibuf.go b/v2/minibuf.go
index f1fc45d..291740f 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -75,7 +75,7 @@ func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
-	{
+	if i < n {
 	read_loop:
 		b.readbit(&bout, off+i)
 		*out = (*out << uint64(1)) | uint64(bout)
@@ -112,7 +112,7 @@ func (b *MiniBuffer) setbits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
-	{
+	if i < n {
 	write_loop:
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
 		i++
@@ -139,7 +139,7 @@ func (b *MiniBuffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	clear_loop:
 		b.buf[i] = 0
 		i++
@@ -159,7 +159,7 @@ func (b *MiniBuffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	set_loop:
 		b.buf[i] = 0xFF
 		i++
@@ -179,7 +179,7 @@ func (b *MiniBuffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
 		i++
@@ -250,7 +250,7 @@ func (b *MiniBuffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
 		b.buf[off+int64(1+(i*2))] = byte(data[i] >> 8)
@@ -272,7 +272,7 @@ func (b *MiniBuffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
 		b.buf[off+int64(1+(i*2))] = byte(data[i])
@@ -294,7 +294,7 @@ func (b *MiniBuffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 8)
@@ -318,7 +318,7 @@ func (b *MiniBuffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 16)
@@ -342,7 +342,7 @@ func (b *MiniBuffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 8)
@@ -370,7 +370,7 @@ func (b *MiniBuffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 48)
@@ -402,7 +402,7 @@ func (b *MiniBuffer) read(out *[]byte, off, n int64) {
 func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(i*2)]) |
 			uint16(b.buf[off+(1+(i*2))])<<8
@@ -421,7 +421,7 @@ func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) |
 			uint16(b.buf[off+(i*2)])<<8
@@ -440,7 +440,7 @@ func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(i*4)]) |
 			uint32(b.buf[off+(1+(i*4))])<<8 |
@@ -461,7 +461,7 @@ func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(3+(i*4))]) |
 			uint32(b.buf[off+(2+(i*4))])<<8 |
@@ -482,7 +482,7 @@ func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(i*8)]) |
 			uint64(b.buf[off+(1+(i*8))])<<8 |
@@ -507,7 +507,7 @@ func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 func (b *MiniBuffer) readU64BE(out *[]uint64, off, n int64) {
 
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(7+(i*8))]) |
 			uint64(b.buf[off+(6+(i*8))])<<8 |
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 4878780..75fca94 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -104,7 +104,7 @@ func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
-	{
+	if i < n {
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
 		i++
@@ -193,7 +193,7 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
-	{
+	if i < n {
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
 
@@ -259,7 +259,7 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	clear_loop:
 		b.buf[i] = 0
 		i++
@@ -279,7 +279,7 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	set_loop:
 		b.buf[i] = 0xFF
 		i++
@@ -299,7 +299,7 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
 		i++
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index a5b4cc2..54c5635 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -92,7 +92,7 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
-	{
+	if i < n {
 	read_loop:
 		b.ReadBit(&bout, off+i)
 		*out = (*out << uint64(1)) | uint64(bout)
@@ -155,7 +155,7 @@ func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
-	{
+	if i < n {
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
 
@@ -209,7 +209,7 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	clear_loop:
 		b.buf[i] = 0
 		i++
@@ -229,7 +229,7 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	set_loop:
 		b.buf[i] = 0xFF
 		i++
@@ -249,7 +249,7 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
 		i++
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 9a08306..2519727 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -104,7 +104,7 @@ func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
-	{
+	if i < n {
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
 		i++
@@ -193,7 +193,7 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
-	{
+	if i < n {
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
 
@@ -259,7 +259,7 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	clear_loop:
 		b.buf[i] = 0
 		i++
@@ -279,7 +279,7 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	set_loop:
 		b.buf[i] = 0xFF
 		i++
@@ -299,7 +299,7 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
 		i++
@@ -409,7 +409,7 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
 		b.buf[off+int64(1+(i*2))] = byte(data[i] >> 8)
@@ -440,7 +440,7 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
 		b.buf[off+int64(1+(i*2))] = byte(data[i])
@@ -471,7 +471,7 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 8)
@@ -504,7 +504,7 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 16)
@@ -537,7 +537,7 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 8)
@@ -574,7 +574,7 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 48)
@@ -611,7 +611,7 @@ func (b *Buffer) WriteI16LE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
 		b.buf[off+int64(1+(i*2))] = byte(data[i] >> 8)
@@ -642,7 +642,7 @@ func (b *Buffer) WriteI16BE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
 		b.buf[off+int64(1+(i*2))] = byte(data[i])
@@ -673,7 +673,7 @@ func (b *Buffer) WriteI32LE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 8)
@@ -706,7 +706,7 @@ func (b *Buffer) WriteI32BE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 16)
@@ -739,7 +739,7 @@ func (b *Buffer) WriteI64LE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 8)
@@ -776,7 +776,7 @@ func (b *Buffer) WriteI64BE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 48)
@@ -813,7 +813,7 @@ func (b *Buffer) WriteF32LE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
 		b.buf[off+int64(1+(i*4))] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 8)
@@ -846,7 +846,7 @@ func (b *Buffer) WriteF32BE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
 		b.buf[off+int64(1+(i*4))] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 16)
@@ -879,7 +879,7 @@ func (b *Buffer) WriteF64LE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
 		b.buf[off+int64(1+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 8)
@@ -916,7 +916,7 @@ func (b *Buffer) WriteF64BE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
 		b.buf[off+int64(1+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 48)
@@ -1001,7 +1001,7 @@ func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
 	}
 	out = make([]uint16, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8
 		i++
@@ -1033,7 +1033,7 @@ func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
 	}
 	out = make([]uint16, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint16(b.buf[off+(1+(i*2))]) | uint16(b.buf[off+(i*2)])<<8
 		i++
@@ -1065,7 +1065,7 @@ func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
 	}
 	out = make([]uint32, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24
 		i++
@@ -1097,7 +1097,7 @@ func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
 	}
 	out = make([]uint32, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24
 		i++
@@ -1129,7 +1129,7 @@ func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
 	}
 	out = make([]uint64, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56
 		i++
@@ -1161,7 +1161,7 @@ func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
 	}
 	out = make([]uint64, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56
 		i++
@@ -1193,7 +1193,7 @@ func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
 	}
 	out = make([]int16, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = int16(b.buf[off+(i*2)]) | int16(b.buf[off+(1+(i*2))])<<8
 		i++
@@ -1225,7 +1225,7 @@ func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
 	}
 	out = make([]int16, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8
 		i++
@@ -1257,7 +1257,7 @@ func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
 	}
 	out = make([]int32, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = int32(b.buf[off+(i*4)]) | int32(b.buf[off+(1+(i*4))])<<8 | int32(b.buf[off+(2+(i*4))])<<16 | int32(b.buf[off+(3+(i*4))])<<24
 		i++
@@ -1289,7 +1289,7 @@ func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
 	}
 	out = make([]int32, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = int32(b.buf[off+(3+(i*4))]) | int32(b.buf[off+(2+(i*4))])<<8 | int32(b.buf[off+(1+(i*4))])<<16 | int32(b.buf[off+(i*4)])<<24
 		i++
@@ -1321,7 +1321,7 @@ func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
 	}
 	out = make([]int64, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = int64(b.buf[off+(i*8)]) | int64(b.buf[off+(1+(i*8))])<<8 | int64(b.buf[off+(2+(i*8))])<<16 | int64(b.buf[off+(3+(i*8))])<<24 | int64(b.buf[off+(4+(i*8))])<<32 | int64(b.buf[off+(5+(i*8))])<<40 | int64(b.buf[off+(6+(i*8))])<<48 | int64(b.buf[off+(7+(i*8))])<<56
 		i++
@@ -1353,7 +1353,7 @@ func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
 	}
 	out = make([]int64, n)
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		out[i] = int64(b.buf[off+(7+(i*8))]) | int64(b.buf[off+(6+(i*8))])<<8 | int64(b.buf[off+(5+(i*8))])<<16 | int64(b.buf[off+(4+(i*8))])<<24 | int64(b.buf[off+(3+(i*8))])<<32 | int64(b.buf[off+(2+(i*8))])<<40 | int64(b.buf[off+(1+(i*8))])<<48 | int64(b.buf[off+(i*8)])<<56
 		i++
@@ -1386,7 +1386,7 @@ func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
 	out = make([]float32, n)
 	i := int64(0)
 	var u uint32
-	{
+	if i < n {
 	read_loop:
 		u = (uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24)
 		out[i] = *(*float32)(unsafe.Pointer(&u))
@@ -1420,7 +1420,7 @@ func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
 	out = make([]float32, n)
 	i := int64(0)
 	var u uint32
-	{
+	if i < n {
 	read_loop:
 		u = (uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24)
 		out[i] = *(*float32)(unsafe.Pointer(&u))
@@ -1454,7 +1454,7 @@ func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
 	out = make([]float64, n)
 	i := int64(0)
 	var u uint64
-	{
+	if i < n {
 	read_loop:
 		u = (uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56)
 		out[i] = *(*float64)(unsafe.Pointer(&u))
@@ -1488,7 +1488,7 @@ func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
 	out = make([]float64, n)
 	i := int64(0)
 	var u uint64
-	{
+	if i < n {
 	read_loop:
 		u = (uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56)
 		out[i] = *(*float64)(unsafe.Pointer(&u))
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1f87c45..8e07db9 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -92,7 +92,7 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
-	{
+	if i < n {
 	read_loop:
 		b.ReadBit(&bout, off+i)
 		*out = (*out << uint64(1)) | uint64(bout)
@@ -155,7 +155,7 @@ func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
-	{
+	if i < n {
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
 
@@ -209,7 +209,7 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	clear_loop:
 		b.buf[i] = 0
 		i++
@@ -229,7 +229,7 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	set_loop:
 		b.buf[i] = 0xFF
 		i++
@@ -249,7 +249,7 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
-	{
+	if i < n {
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
 		i++
@@ -325,7 +325,7 @@ func (b *MiniBuffer) WriteBytesNext(data []byte) {
 func (b *MiniBuffer) WriteU16LE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
 		b.buf[off+int64(1+(i*2))] = byte(data[i] >> 8)
@@ -350,7 +350,7 @@ func (b *MiniBuffer) WriteU16LENext(data []uint16) {
 func (b *MiniBuffer) WriteU16BE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
 		b.buf[off+int64(1+(i*2))] = byte(data[i])
@@ -375,7 +375,7 @@ func (b *MiniBuffer) WriteU16BENext(data []uint16) {
 func (b *MiniBuffer) WriteU32LE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 8)
@@ -402,7 +402,7 @@ func (b *MiniBuffer) WriteU32LENext(data []uint32) {
 func (b *MiniBuffer) WriteU32BE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 16)
@@ -429,7 +429,7 @@ func (b *MiniBuffer) WriteU32BENext(data []uint32) {
 func (b *MiniBuffer) WriteU64LE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 8)
@@ -460,7 +460,7 @@ func (b *MiniBuffer) WriteU64LENext(data []uint64) {
 func (b *MiniBuffer) WriteU64BE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 48)
@@ -491,7 +491,7 @@ func (b *MiniBuffer) WriteU64BENext(data []uint64) {
 func (b *MiniBuffer) WriteI16LE(off int64, data []int16) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
 		b.buf[off+int64(1+(i*2))] = byte(data[i] >> 8)
@@ -516,7 +516,7 @@ func (b *MiniBuffer) WriteI16LENext(data []int16) {
 func (b *MiniBuffer) WriteI16BE(off int64, data []int16) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
 		b.buf[off+int64(1+(i*2))] = byte(data[i])
@@ -541,7 +541,7 @@ func (b *MiniBuffer) WriteI16BENext(data []int16) {
 func (b *MiniBuffer) WriteI32LE(off int64, data []int32) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 8)
@@ -568,7 +568,7 @@ func (b *MiniBuffer) WriteI32LENext(data []int32) {
 func (b *MiniBuffer) WriteI32BE(off int64, data []int32) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
 		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 16)
@@ -595,7 +595,7 @@ func (b *MiniBuffer) WriteI32BENext(data []int32) {
 func (b *MiniBuffer) WriteI64LE(off int64, data []int64) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 8)
@@ -626,7 +626,7 @@ func (b *MiniBuffer) WriteI64LENext(data []int64) {
 func (b *MiniBuffer) WriteI64BE(off int64, data []int64) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
 		b.buf[off+int64(1+(i*8))] = byte(data[i] >> 48)
@@ -657,7 +657,7 @@ func (b *MiniBuffer) WriteI64BENext(data []int64) {
 func (b *MiniBuffer) WriteF32LE(off int64, data []float32) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
 		b.buf[off+int64(1+(i*4))] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 8)
@@ -684,7 +684,7 @@ func (b *MiniBuffer) WriteF32LENext(data []float32) {
 func (b *MiniBuffer) WriteF32BE(off int64, data []float32) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
 		b.buf[off+int64(1+(i*4))] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 16)
@@ -711,7 +711,7 @@ func (b *MiniBuffer) WriteF32BENext(data []float32) {
 func (b *MiniBuffer) WriteF64LE(off int64, data []float64) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
 		b.buf[off+int64(1+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 8)
@@ -742,7 +742,7 @@ func (b *MiniBuffer) WriteF64LENext(data []float64) {
 func (b *MiniBuffer) WriteF64BE(off int64, data []float64) {
 	i := 0
 	n := len(data)
-	{
+	if i < n {
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
 		b.buf[off+int64(1+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 48)
@@ -789,7 +789,7 @@ func (b *MiniBuffer) ReadBytesNext(out *[]byte, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU16LE(out *[]uint16, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8
 		i++
@@ -812,7 +812,7 @@ func (b *MiniBuffer) ReadU16LENext(out *[]uint16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU16BE(out *[]uint16, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) | uint16(b.buf[off+(i*2)])<<8
 		i++
@@ -835,7 +835,7 @@ func (b *MiniBuffer) ReadU16BENext(out *[]uint16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU32LE(out *[]uint32, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24
 		i++
@@ -858,7 +858,7 @@ func (b *MiniBuffer) ReadU32LENext(out *[]uint32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU32BE(out *[]uint32, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24
 		i++
@@ -881,7 +881,7 @@ func (b *MiniBuffer) ReadU32BENext(out *[]uint32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU64LE(out *[]uint64, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56
 		i++
@@ -904,7 +904,7 @@ func (b *MiniBuffer) ReadU64LENext(out *[]uint64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU64BE(out *[]uint64, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56
 		i++
@@ -927,7 +927,7 @@ func (b *MiniBuffer) ReadU64BENext(out *[]uint64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI16LE(out *[]int16, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = int16(b.buf[off+(i*2)]) | int16(b.buf[off+(1+(i*2))])<<8
 		i++
@@ -950,7 +950,7 @@ func (b *MiniBuffer) ReadI16LENext(out *[]int16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI16BE(out *[]int16, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8
 		i++
@@ -973,7 +973,7 @@ func (b *MiniBuffer) ReadI16BENext(out *[]int16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI32LE(out *[]int32, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = int32(b.buf[off+(i*4)]) | int32(b.buf[off+(1+(i*4))])<<8 | int32(b.buf[off+(2+(i*4))])<<16 | int32(b.buf[off+(3+(i*4))])<<24
 		i++
@@ -996,7 +996,7 @@ func (b *MiniBuffer) ReadI32LENext(out *[]int32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI32BE(out *[]int32, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = int32(b.buf[off+(3+(i*4))]) | int32(b.buf[off+(2+(i*4))])<<8 | int32(b.buf[off+(1+(i*4))])<<16 | int32(b.buf[off+(i*4)])<<24
 		i++
@@ -1019,7 +1019,7 @@ func (b *MiniBuffer) ReadI32BENext(out *[]int32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI64LE(out *[]int64, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = int64(b.buf[off+(i*8)]) | int64(b.buf[off+(1+(i*8))])<<8 | int64(b.buf[off+(2+(i*8))])<<16 | int64(b.buf[off+(3+(i*8))])<<24 | int64(b.buf[off+(4+(i*8))])<<32 | int64(b.buf[off+(5+(i*8))])<<40 | int64(b.buf[off+(6+(i*8))])<<48 | int64(b.buf[off+(7+(i*8))])<<56
 		i++
@@ -1042,7 +1042,7 @@ func (b *MiniBuffer) ReadI64LENext(out *[]int64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI64BE(out *[]int64, off, n int64) {
 	i := int64(0)
-	{
+	if i < n {
 	read_loop:
 		(*out)[i] = int64(b.buf[off+(7+(i*8))]) | int64(b.buf[off+(6+(i*8))])<<8 | int64(b.buf[off+(5+(i*8))])<<16 | int64(b.buf[off+(4+(i*8))])<<24 | int64(b.buf[off+(3+(i*8))])<<32 | int64(b.buf[off+(2+(i*8))])<<40 | int64(b.buf[off+(1+(i*8))])<<48 | int64(b.buf[off+(i*8)])<<56
 		i++
@@ -1066,7 +1066,7 @@ func (b *MiniBuffer) ReadI64BENext(out *[]int64, n int64) {
 func (b *MiniBuffer) ReadF32LE(out *[]float32, off, n int64) {
 	i := int64(0)
 	var u uint32
-	{
+	if i < n {
 	read_loop:
 		u = (uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24)
 		(*out)[i] = *(*float32)(unsafe.Pointer(&u))
@@ -1091,7 +1091,7 @@ func (b *MiniBuffer) ReadF32LENext(out *[]float32, n int64) {
 func (b *MiniBuffer) ReadF32BE(out *[]float32, off, n int64) {
 	i := int64(0)
 	var u uint32
-	{
+	if i < n {
 	read_loop:
 		u = (uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24)
 		(*out)[i] = *(*float32)(unsafe.Pointer(&u))
@@ -1116,7 +1116,7 @@ func (b *MiniBuffer) ReadF32BENext(out *[]float32, n int64) {
 func (b *MiniBuffer) ReadF64LE(out *[]float64, off, n int64) {
 	i := int64(0)
 	var u uint64
-	{
+	if i < n {
 	read_loop:
 		u = (uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56)
 		(*out)[i] = *(*float64)(unsafe.Pointer(&u))
@@ -1141,7 +1141,7 @@ func (b *MiniBuffer) ReadF64LENext(out *[]float64, n int64) {
 func (b *MiniBuffer) ReadF64BE(out *[]float64, off, n int64) {
 	i := int64(0)
 	var u uint64
-	{
+	if i < n {
 	read_loop:
 		u = (uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56)
 		(*out)[i] = *(*float64)(unsafe.Pointer(&u))
-- 
2.43.0


From dbedf8d961fb28e00f004973fb7b0c2a2ba2828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 2/8] fix: bounds checks no longer overflow on large offsets
 and counts

---
 generation/complex.go  |   9 +--
 v1/buffer.go           |   4 +-
 v2/buffer.go           |  64 ++++++++++----------
 v3/_buffer.go          |   4 +-
 v3/buffer.generated.go | 132 ++++++++++++++++++++---------------------
 5 files changed, 107 insertions(+), 106 deletions(-)

diff --git a/generation/complex.go b/generation/complex.go
index 17c4f8e..d6717df 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -187,13 +187,14 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 			function.BlockFunc(func(body *jen.Group) {
 				if arguments[0] == "Buffer" {
 					if arguments[1] == "Read" {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("n").Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
-							Block(jen.Panic(jen.Id("BufferOverreadError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderreadError")))
+						body.If(jen.Id("off").Op(">").Id("b").Dot("cap").Op("||").Id("n").Op(">").
+							Parens(jen.Id("b").Dot("cap").Op("-").Id("off")).Op("/").Lit(intBytes)).
+							Block(jen.Panic(jen.Id("BufferOverreadError")))
 					} else {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("int64").
-							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						body.If(jen.Id("off").Op(">").Parens(jen.Id("b").Dot("cap").Op("-").Id("int64").
+							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes))).
 							Block(jen.Panic(jen.Id("BufferOverwriteError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderwriteError")))
diff --git a/v1/buffer.go b/v1/buffer.go
index da17ecf..84369ca 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -239,7 +239,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > (b.cap - int64(len(data))) {
 
 		panic(BufferOverwriteError)
 
@@ -343,7 +343,7 @@ func (b *Buffer) writeComplex(off int64, idata interface{}, size IntegerSize, en
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > (b.cap - n) {
 
 		panic(BufferOverreadError)
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 8cc2265..4f43b36 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -279,7 +279,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > (b.cap - int64(len(data))) {
 
 		panic(BufferOverwriteError)
 
@@ -315,7 +315,7 @@ func (b *Buffer) write(off int64, data []byte) {
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 
 		panic(BufferOverwriteError)
 
@@ -353,7 +353,7 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 
 		panic(BufferOverwriteError)
 
@@ -391,7 +391,7 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 
 		panic(BufferOverwriteError)
 
@@ -431,7 +431,7 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 
 		panic(BufferOverwriteError)
 
@@ -471,7 +471,7 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 
 		panic(BufferOverwriteError)
 
@@ -515,7 +515,7 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 
 		panic(BufferOverwriteError)
 
@@ -559,7 +559,7 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > (b.cap - n) {
 
 		panic(BufferOverreadError)
 
@@ -581,15 +581,15 @@ func (b *Buffer) read(off, n int64) []byte {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if off < 0x00 {
 
-		panic(BufferOverreadError)
+		panic(BufferUnderreadError)
 
 	}
 
-	if off < 0x00 {
+	if off > b.cap || n > (b.cap-off)/2 {
 
-		panic(BufferUnderreadError)
+		panic(BufferOverreadError)
 
 	}
 
@@ -619,15 +619,15 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if off < 0x00 {
 
-		panic(BufferOverreadError)
+		panic(BufferUnderreadError)
 
 	}
 
-	if off < 0x00 {
+	if off > b.cap || n > (b.cap-off)/2 {
 
-		panic(BufferUnderreadError)
+		panic(BufferOverreadError)
 
 	}
 
@@ -657,15 +657,15 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if off < 0x00 {
 
-		panic(BufferOverreadError)
+		panic(BufferUnderreadError)
 
 	}
 
-	if off < 0x00 {
+	if off > b.cap || n > (b.cap-off)/4 {
 
-		panic(BufferUnderreadError)
+		panic(BufferOverreadError)
 
 	}
 
@@ -697,15 +697,15 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if off < 0x00 {
 
-		panic(BufferOverreadError)
+		panic(BufferUnderreadError)
 
 	}
 
-	if off < 0x00 {
+	if off > b.cap || n > (b.cap-off)/4 {
 
-		panic(BufferUnderreadError)
+		panic(BufferOverreadError)
 
 	}
 
@@ -737,15 +737,15 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if off < 0x00 {
 
-		panic(BufferOverreadError)
+		panic(BufferUnderreadError)
 
 	}
 
-	if off < 0x00 {
+	if off > b.cap || n > (b.cap-off)/8 {
 
-		panic(BufferUnderreadError)
+		panic(BufferOverreadError)
 
 	}
 
@@ -781,15 +781,15 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if off < 0x00 {
 
-		panic(BufferOverreadError)
+		panic(BufferUnderreadError)
 
 	}
 
-	if off < 0x00 {
+	if off > b.cap || n > (b.cap-off)/8 {
 
-		panic(BufferUnderreadError)
+		panic(BufferOverreadError)
 
 	}
 
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 75fca94..b9cde00 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -355,7 +355,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > (b.cap - int64(len(data))) {
 
 		panic(BufferOverwriteError)
 
@@ -433,7 +433,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > (b.cap - n) {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 2519727..c47654b 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -355,7 +355,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > (b.cap - int64(len(data))) {
 
 		panic(BufferOverwriteError)
 
@@ -401,7 +401,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -432,7 +432,7 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -463,7 +463,7 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -496,7 +496,7 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -529,7 +529,7 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -566,7 +566,7 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -603,7 +603,7 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16LE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -634,7 +634,7 @@ func (b *Buffer) WriteI16LENext(data []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16BE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -665,7 +665,7 @@ func (b *Buffer) WriteI16BENext(data []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32LE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -698,7 +698,7 @@ func (b *Buffer) WriteI32LENext(data []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32BE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -731,7 +731,7 @@ func (b *Buffer) WriteI32BENext(data []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64LE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -768,7 +768,7 @@ func (b *Buffer) WriteI64LENext(data []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64BE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -805,7 +805,7 @@ func (b *Buffer) WriteI64BENext(data []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32LE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -838,7 +838,7 @@ func (b *Buffer) WriteF32LENext(data []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32BE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -871,7 +871,7 @@ func (b *Buffer) WriteF32BENext(data []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64LE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -908,7 +908,7 @@ func (b *Buffer) WriteF64LENext(data []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64BE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -945,7 +945,7 @@ func (b *Buffer) WriteF64BENext(data []float64) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > (b.cap - n) {
 
 		panic(BufferOverreadError)
 
@@ -993,12 +993,12 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/2 {
+		panic(BufferOverreadError)
+	}
 	out = make([]uint16, n)
 	i := int64(0)
 	if i < n {
@@ -1025,12 +1025,12 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/2 {
+		panic(BufferOverreadError)
+	}
 	out = make([]uint16, n)
 	i := int64(0)
 	if i < n {
@@ -1057,12 +1057,12 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	out = make([]uint32, n)
 	i := int64(0)
 	if i < n {
@@ -1089,12 +1089,12 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	out = make([]uint32, n)
 	i := int64(0)
 	if i < n {
@@ -1121,12 +1121,12 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	out = make([]uint64, n)
 	i := int64(0)
 	if i < n {
@@ -1153,12 +1153,12 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	out = make([]uint64, n)
 	i := int64(0)
 	if i < n {
@@ -1185,12 +1185,12 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/2 {
+		panic(BufferOverreadError)
+	}
 	out = make([]int16, n)
 	i := int64(0)
 	if i < n {
@@ -1217,12 +1217,12 @@ func (b *Buffer) ReadI16LENext(n int64) (out []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/2 {
+		panic(BufferOverreadError)
+	}
 	out = make([]int16, n)
 	i := int64(0)
 	if i < n {
@@ -1249,12 +1249,12 @@ func (b *Buffer) ReadI16BENext(n int64) (out []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	out = make([]int32, n)
 	i := int64(0)
 	if i < n {
@@ -1281,12 +1281,12 @@ func (b *Buffer) ReadI32LENext(n int64) (out []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	out = make([]int32, n)
 	i := int64(0)
 	if i < n {
@@ -1313,12 +1313,12 @@ func (b *Buffer) ReadI32BENext(n int64) (out []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	out = make([]int64, n)
 	i := int64(0)
 	if i < n {
@@ -1345,12 +1345,12 @@ func (b *Buffer) ReadI64LENext(n int64) (out []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	out = make([]int64, n)
 	i := int64(0)
 	if i < n {
@@ -1377,12 +1377,12 @@ func (b *Buffer) ReadI64BENext(n int64) (out []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	out = make([]float32, n)
 	i := int64(0)
 	var u uint32
@@ -1411,12 +1411,12 @@ func (b *Buffer) ReadF32LENext(n int64) (out []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	out = make([]float32, n)
 	i := int64(0)
 	var u uint32
@@ -1445,12 +1445,12 @@ func (b *Buffer) ReadF32BENext(n int64) (out []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	out = make([]float64, n)
 	i := int64(0)
 	var u uint64
@@ -1479,12 +1479,12 @@ func (b *Buffer) ReadF64LENext(n int64) (out []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
-		panic(BufferOverreadError)
-	}
 	if off < 0 {
 		panic(BufferUnderreadError)
 	}
+	if off > b.cap || n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	out = make([]float64, n)
 	i := int64(0)
 	var u uint64
-- 
2.43.0


From 598e4d3646cc5da0b9e686019be4758fb96edb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 3/8] fix: v3 Grow zeroes the bytes it adds from spare capacity

---
 v3/_buffer.go           | 6 ++++++
 v3/_minibuf.go          | 6 ++++++
 v3/buffer.generated.go  | 6 ++++++
 v3/minibuf.generated.go | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/v3/_buffer.go b/v3/_buffer.go
index b9cde00..03081f1 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -586,7 +586,13 @@ func (b *Buffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
+		// the spare capacity may still hold stale data
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0x00
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 54c5635..72a5467 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -460,7 +460,13 @@ func (b *MiniBuffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
+		// the spare capacity may still hold stale data
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0x00
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index c47654b..9629525 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -1586,7 +1586,13 @@ func (b *Buffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
+		// the spare capacity may still hold stale data
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0x00
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 8e07db9..3199a1b 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -1220,7 +1220,13 @@ func (b *MiniBuffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
+		// the spare capacity may still hold stale data
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0x00
+
+		}
 		b.Refresh()
 		return
 
-- 
2.43.0


From f1eca181c3982702663f822732fdd2d20b73b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 4/8] fix: v1 and v2 Grow reject negative byte counts without
 keeping the lock

---
 v1/buffer.go | 11 ++++++++++-
 v2/buffer.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 84369ca..044161f 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -444,9 +444,18 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	// allocated before the lock is taken, as it may panic
+	tail := make([]byte, n)
+
 	b.Lock()
 
-	b.buf = append(b.buf, make([]byte, n)...)
+	b.buf = append(b.buf, tail...)
 
 	b.Unlock()
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 4f43b36..dc80afe 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -856,9 +856,18 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	// allocated before the lock is taken, as it may panic
+	tail := make([]byte, n)
+
 	b.Lock()
 
-	b.buf = append(b.buf, make([]byte, n)...)
+	b.buf = append(b.buf, tail...)
 
 	b.Unlock()
 
-- 
2.43.0


From 3c7180a8693f5ec83ef80a4e6e3392d6fb81ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 5/8] fix: MiniBuffer ReadBits no longer mixes in the previous
 value of out

---
 v1/minibuf.go           | 1 +
 v2/minibuf.go           | 1 +
 v3/_minibuf.go          | 1 +
 v3/minibuf.generated.go | 1 +
 4 files changed, 4 insertions(+)

diff --git a/v1/minibuf.go b/v1/minibuf.go
index 959d9f7..c11ea47 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -74,6 +74,7 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 	var bout byte
+	*out = 0
 	for i := int64(0); i < n; i++ {
 
 		b.readbit(&bout, off+i)
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 291740f..21bae12 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -75,6 +75,7 @@ func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	*out = 0
 	if i < n {
 	read_loop:
 		b.readbit(&bout, off+i)
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 72a5467..c67a859 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -92,6 +92,7 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	*out = 0
 	if i < n {
 	read_loop:
 		b.ReadBit(&bout, off+i)
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 3199a1b..5522d49 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -92,6 +92,7 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	*out = 0
 	if i < n {
 	read_loop:
 		b.ReadBit(&bout, off+i)
-- 
2.43.0


From b798891114eb40cc90f3082a61641790dca43cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 6/8] fix: v1 ReadComplex bounds-checks the bytes it reads, not
 the integer count

---
 v1/buffer.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 044161f..d05499c 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -365,7 +365,30 @@ func (b *Buffer) read(off, n int64) []byte {
 // readComplex reads a slice of bytes from the buffer at the specified offset with the specified endianness and integer type
 func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
-	data := b.read(off, n)
+	switch size {
+
+	case Unsigned8, Unsigned16, Unsigned32, Unsigned64:
+		break
+
+	default:
+		panic(BufferInvalidIntegerSizeError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderreadError)
+
+	}
+
+	// n counts integers, not bytes
+	if off > b.cap || n > (b.cap-off)/int64(size) {
+
+		panic(BufferOverreadError)
+
+	}
+
+	data := b.read(off, n*int64(size))
 
 	switch size {
 
-- 
2.43.0


From d41c06231a52077b4331ec6139c96c53d59722ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 7/8] fix: v1 and v2 WriteBytes handle empty and overlapping
 data

---
 v1/buffer.go  | 14 +-------------
 v1/minibuf.go | 13 +------------
 v2/buffer.go  | 15 +--------------
 v2/minibuf.go | 16 ++--------------
 4 files changed, 5 insertions(+), 53 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index d05499c..5e2ecce 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -253,19 +253,7 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	b.Lock()
 
-	i := int64(0)
-	n := int64(len(data))
-
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 	b.Unlock()
 
diff --git a/v1/minibuf.go b/v1/minibuf.go
index c11ea47..2d1aab2 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -186,19 +186,8 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	i := int64(0)
 	n := int64(len(data))
-
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:off+n:len(b.buf)], data)
 
 }
 
diff --git a/v2/buffer.go b/v2/buffer.go
index dc80afe..1b6b08f 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -293,20 +293,7 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	b.Lock()
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 	b.Unlock()
 
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 21bae12..41fc4cb 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -227,20 +227,8 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	n := int64(len(data))
+	copy(b.buf[off:off+n:len(b.buf)], data)
 
 }
 
-- 
2.43.0


From fc4f0c19d1f4fc6b6c819331a403541cc9eff987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 8/8] fix: generator truncates the files it overwrites

---
 generation/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generation/main.go b/generation/main.go
index d1f4e87..429e31a 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -103,7 +103,7 @@ func main() {
 	}
 
 	for name, contents := range generated {
-		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE, 0644)
+		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			fmt.Printf("! unable to open source file. (%v)\n", err)
 			continue
-- 
2.43.0

