package main

import (
	"crypto/rand"
	"errors"
	"io"
	"os"
	"strconv"
	"syscall"
	"unsafe"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/simrt"
)

// simReader is the operating system's randomness source. What it does during
// an operation is decided by the operation's read plan; the bytes it delivers
// are a function of the scenario seed and the operation alone, so that every
// delivered byte can be attributed to the call it was delivered to.
type simReader struct{}

var errDevice = errors.New("simulated: randomness device failed")

var readErrs = map[string]error{
	"EOF":      io.EOF,
	"UEOF":     io.ErrUnexpectedEOF,
	"EIO":      &os.PathError{Op: "read", Path: "/dev/urandom", Err: syscall.EIO},
	"EINTR":    syscall.EINTR,
	"EAGAIN":   syscall.EAGAIN,
	"ENOSYS":   os.NewSyscallError("getrandom", syscall.ENOSYS),
	"ENOENT":   &os.PathError{Op: "open", Path: "/dev/urandom", Err: syscall.ENOENT},
	"EMFILE":   &os.PathError{Op: "open", Path: "/dev/urandom", Err: syscall.EMFILE},
	"NOPROG":   io.ErrNoProgress,
	"DEADLINE": os.ErrDeadlineExceeded,
	"CLOSED":   os.ErrClosed,
	"SHORT":    io.ErrShortBuffer,
	"device":   errDevice,
}

var readErrNames = []string{"EOF", "UEOF", "EIO", "EINTR", "EAGAIN", "ENOSYS", "ENOENT", "EMFILE", "NOPROG", "DEADLINE", "CLOSED", "SHORT", "device"}

// Counters of fired faults; plain integers because tasks bump them.
const (
	fShort = iota
	fZeroRead
	fErr
	fErrWithData
	fErrFull
	fPersist
	fStall
	fOneByte
	fStorage0
	nFault = fStorage0 + 64
)

var readFaultNames = []string{"rand.short_read", "rand.empty_read", "rand.error_no_data", "rand.error_after_partial_data",
	"rand.error_with_complete_data", "rand.persistent_failure", "rand.stall", "rand.single_byte_reads"}

var fired [nFault]int

// opCtx is the task-local record of one running operation.
type opCtx struct {
	plan    *core.ReadPlan
	seed    uint64
	pos     int // reads made
	off     int // bytes delivered
	deliv   []byte
	failed  bool // an error was returned to this call
	last    bool // the last read returned an error without completing
	persist bool
	wantsR  bool // the operation needs randomness
	stream  simrt.Rand
	streamN int
	cur     uint64
	notes   []string
}

func (c *opCtx) nextByte() byte {
	i := c.streamN
	c.streamN++
	switch c.plan.Pat {
	case "":
	case "zero":
		return 0
	case "ff":
		return 0xff
	default: // lead<k>
		k, _ := strconv.Atoi(c.plan.Pat[4:])
		if i < k {
			return 0
		}
	}
	if i%8 == 0 || c.cur == 0 {
		c.cur = c.stream.U64()
	}
	b := byte(c.cur)
	c.cur >>= 8
	return b
}

var fullPlan = &core.ReadPlan{}

func (simReader) Read(p []byte) (int, error) {
	simrt.Y(1)
	t := simrt.Cur()
	var c *opCtx
	if t != nil {
		c, _ = t.Local.(*opCtx)
	}
	if c == nil {
		// Outside any operation (package initialisation): a working device
		// whose bytes belong to no call.
		for i := range p {
			p[i] = 0xA5
		}
		return len(p), nil
	}
	if c.plan == nil {
		c.plan = fullPlan
	}
	n := len(p)
	var err error
	st := core.ReadStep{N: -1}
	if c.pos < len(c.plan.Steps) {
		st = c.plan.Steps[c.pos]
	} else {
		switch c.plan.Tail {
		case "fail":
			st = core.ReadStep{N: 0, Err: "device"}
			fired[fPersist]++
		case "one":
			st.N = 1
			if n > 1 {
				fired[fOneByte]++
			}
		}
	}
	c.pos++
	if st.Stall != 0 {
		fired[fStall]++
		k := st.Stall
		if k < 0 {
			k = 0
		}
		simrt.Stall(k)
	}
	if st.N >= 0 && st.N < n {
		n = st.N
	}
	if st.Err != "" {
		err = readErrs[st.Err]
		c.failed = true
		switch {
		case n == 0:
			fired[fErr]++
		case n < len(p):
			fired[fErrWithData]++
		default:
			fired[fErrFull]++
		}
	} else if n == 0 && len(p) > 0 {
		fired[fZeroRead]++
	} else if n < len(p) {
		fired[fShort]++
	}
	for i := 0; i < n; i++ {
		p[i] = c.nextByte()
	}
	if len(c.deliv)+n > cap(c.deliv) {
		d := make([]byte, len(c.deliv), 2*cap(c.deliv)+n)
		for i := range c.deliv {
			d[i] = c.deliv[i]
		}
		c.deliv = d
	}
	for i := 0; i < n; i++ {
		c.deliv = c.deliv[:len(c.deliv)+1]
		c.deliv[len(c.deliv)-1] = p[i]
	}
	if n > 0 {
		simrt.RaceWrite(unsafe.Pointer(&p[0]), n)
	}
	simrt.Y(1)
	return n, err
}

func init() { rand.Reader = simReader{} }
