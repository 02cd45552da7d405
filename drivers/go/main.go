// Makes the calls that arrive on standard input and answers on standard output.
package main

import (
	"bufio"
	"encoding/binary"
	"io"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	kzg "github.com/crate-crypto/rust-eth-kzg"
)

var in = bufio.NewReaderSize(os.Stdin, 1<<20)
var out = bufio.NewWriterSize(os.Stdout, 1<<20)

func u8() byte {
	b, err := in.ReadByte()
	if err == io.EOF {
		os.Exit(0)
	}
	if err != nil {
		panic(err)
	}
	return b
}
func full(b []byte) {
	if _, err := io.ReadFull(in, b); err != nil {
		panic(err)
	}
}
func i32() int32 {
	var b [4]byte
	full(b[:])
	return int32(binary.BigEndian.Uint32(b[:]))
}
func bytes() []byte {
	n := i32()
	if n < 0 {
		return nil
	}
	b := make([]byte, n)
	full(b)
	return b
}
func skipList() {
	n := i32()
	for i := int32(0); i < n; i++ {
		bytes()
	}
}

// A slice of its own, or a window of a larger array with more behind it.
type arg struct {
	b     []byte
	whole []byte
	off   int
	copy  []byte
}

const around = 0x11

var style, salt byte

func window(b []byte) arg {
	if b == nil {
		return arg{}
	}
	salt++
	s := style & 3
	if s == 3 {
		s = salt % 3
	}
	if s == 0 {
		return arg{b: b}
	}
	off := 1 + int(salt)%41
	tail := 13
	if s == 2 {
		// enough capacity for a whole blob
		tail = 131072 + 64
	}
	whole := make([]byte, off+len(b)+tail)
	for i := range whole {
		whole[i] = around
	}
	copy(whole[off:], b)
	return arg{whole[off : off+len(b)], whole, off, b}
}

// Whether the caller's memory is as it was.
func (a arg) intact() bool {
	for i, x := range a.whole {
		j := i - a.off
		want := byte(around)
		if j >= 0 && j < len(a.copy) {
			want = a.copy[j]
		}
		if x != want {
			return false
		}
	}
	return true
}

// The operation's blob; the binding has no other operation.
func args() arg {
	u8()
	b := window(bytes())
	skipList()
	n := i32()
	for i := int32(0); i < n; i++ {
		full(make([]byte, 17))
	}
	skipList()
	skipList()
	return b
}
func put(b []byte) {
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], uint32(len(b)))
	out.Write(n[:])
	out.Write(b)
}

type result struct {
	r       []byte
	err     error
	touched bool
}

func answer(x result) {
	if x.touched {
		out.WriteByte(10)
	} else if x.err != nil {
		out.WriteByte(3)
		put([]byte("error: " + x.err.Error()))
	} else {
		out.WriteByte(0)
		put(x.r)
	}
}
func call(c *kzg.DASContext, a arg) result {
	r, err := c.BlobToKZGCommitment(a.b)
	return result{r, err, !a.intact()}
}

// Collects garbage all the time until stop is set.
func collect(stop *atomic.Bool, done *sync.WaitGroup) {
	done.Add(1)
	go func() {
		defer done.Done()
		for !stop.Load() {
			time.Sleep(time.Millisecond)
			runtime.GC()
		}
	}()
}

func main() {
	slots := make([]*kzg.DASContext, 256)
	for {
		cmd := u8()
		slot := u8()
		style = u8()
		switch cmd {
		case 0:
			answer(call(slots[slot], args()))
		case 1:
			u8()
			u8()
			slots[slot] = kzg.NewProverContext()
			out.WriteByte(4)
		case 2:
			u8()
			slots[slot] = nil
			out.WriteByte(4)
		case 3:
			runtime.GC()
			runtime.GC()
			out.WriteByte(4)
		case 6: // the same call again and again
			n := i32()
			a := args()
			first := call(slots[slot], a)
			same := true
			for i := int32(1); i < n && same; i++ {
				r := call(slots[slot], a)
				same = string(r.r) == string(first.r) && (r.err == nil) == (first.err == nil)
			}
			if same {
				answer(first)
			} else {
				out.WriteByte(11)
			}
		case 7: // memory in use
			for i := 0; i < 3; i++ {
				runtime.GC()
				time.Sleep(time.Millisecond)
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			out.WriteByte(0)
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], m.HeapAlloc)
			put(b[:])
		case 4, 5:
			n := i32()
			bs := make([]arg, n)
			for i := range bs {
				bs[i] = args()
			}
			rs := make([]result, n)
			var stop atomic.Bool
			var done, work sync.WaitGroup
			c := slots[slot]
			if cmd == 5 {
				// The last use of the context is these calls.
				slots[slot] = nil
			}
			collect(&stop, &done)
			work.Add(int(n))
			for i := range bs {
				go func(c *kzg.DASContext, i int) {
					defer work.Done()
					b := bs[i]
					bs[i] = arg{}
					rs[i] = call(c, b)
				}(c, i)
			}
			c = nil
			work.Wait()
			stop.Store(true)
			done.Wait()
			for _, r := range rs {
				answer(r)
			}
		}
		out.Flush()
	}
}
