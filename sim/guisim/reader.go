package main

import (
	"crypto/rand"
	"errors"
	"io"
	"os"
	"strconv"
	"syscall"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/simrt"
)

// simReader is the operating system's randomness source. Its behaviour is set
// per click on the generate button.
type simReader struct{}

var errDevice = errors.New("simulated: randomness device failed")

var readErrs = map[string]error{
	"EOF":      io.EOF,
	"UEOF":     io.ErrUnexpectedEOF,
	"EIO":      &os.PathError{Op: "read", Path: "/dev/urandom", Err: syscall.EIO},
	"EINTR":    syscall.EINTR,
	"EAGAIN":   syscall.EAGAIN,
	"ENOSYS":   os.NewSyscallError("getrandom", syscall.ENOSYS),
	"EMFILE":   &os.PathError{Op: "open", Path: "/dev/urandom", Err: syscall.EMFILE},
	"NOPROG":   io.ErrNoProgress,
	"DEADLINE": os.ErrDeadlineExceeded,
	"device":   errDevice,
}

var readErrNames = []string{"EOF", "UEOF", "EIO", "EINTR", "EAGAIN", "ENOSYS", "EMFILE", "NOPROG", "DEADLINE", "device"}

// source is the state of the randomness source in the running session.
type source struct {
	plan    *core.ReadPlan
	seed    uint64
	pos     int
	deliv   []byte
	reads   int
	failed  bool // an error was returned
	lastBad bool // the last read returned an error and less than asked
	errFull bool // an error came with complete data
	n       int
	cur     uint64
	stream  simrt.Rand
	o       *core.Outcome
}

var src = &source{}

// begin starts a new reading plan; deliveries from now on count for it.
func (s *source) begin(p *core.ReadPlan, seed uint64) {
	if p == nil {
		p = &core.ReadPlan{}
	}
	o := s.o
	*s = source{plan: p, seed: seed, o: o}
	s.stream.Seed(seed)
}

func (s *source) next() byte {
	i := s.n
	s.n++
	switch s.plan.Pat {
	case "":
	case "zero":
		return 0
	case "ff":
		return 0xff
	default:
		k, _ := strconv.Atoi(s.plan.Pat[4:])
		if i < k {
			return 0
		}
	}
	if i%8 == 0 || s.cur == 0 {
		s.cur = s.stream.U64()
	}
	b := byte(s.cur)
	s.cur >>= 8
	return b
}

func (simReader) Read(p []byte) (int, error) {
	simrt.Y(1)
	c := src
	if c.plan == nil {
		for i := range p {
			p[i] = 0xA5
		}
		return len(p), nil
	}
	fault := func(n string) {
		if c.o != nil {
			c.o.Fault("rand." + n)
		}
	}
	n := len(p)
	var err error
	st := core.ReadStep{N: -1}
	if c.pos < len(c.plan.Steps) {
		st = c.plan.Steps[c.pos]
	} else {
		switch c.plan.Tail {
		case "fail":
			st = core.ReadStep{N: 0, Err: "device"}
			fault("persistent_failure")
		case "one":
			st.N = 1
			if n > 1 {
				fault("single_byte_reads")
			}
		}
	}
	c.pos++
	c.reads++
	if st.Stall != 0 {
		fault("stall")
		simrt.Stall(max(st.Stall, 0))
	}
	if st.N >= 0 && st.N < n {
		n = st.N
	}
	c.lastBad = false
	if st.Err != "" {
		err = readErrs[st.Err]
		c.failed = true
		switch {
		case n == 0:
			fault("error_no_data")
			c.lastBad = true
		case n < len(p):
			fault("error_after_partial_data")
			c.lastBad = true
		default:
			fault("error_with_complete_data")
			c.errFull = true
		}
	} else if n == 0 && len(p) > 0 {
		fault("empty_read")
	} else if n < len(p) {
		fault("short_read")
	}
	for i := 0; i < n; i++ {
		p[i] = c.next()
	}
	c.deliv = append(c.deliv, p[:n]...)
	simrt.Y(1)
	return n, err
}

func init() { rand.Reader = simReader{} }
