package main

// Byte streams which misbehave on purpose, within the contracts of
// io.Reader, io.Seeker, io.Writer and io.Closer.

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
)

var errInjected = errors.New("injected stream fault")
var errInjectedClose = errors.New("injected close fault")

// Frag says how a stream fragments its transfers.
type Frag struct {
	Sizes  []int `json:",omitempty"` // cyclic maximum transfer sizes; 0 gives a read of no bytes and no error
	EOFNow bool  `json:",omitempty"` // return io.EOF together with the last bytes
	// Rich streams have many of the optional methods of readers and writers.
	Rich bool `json:",omitempty"`
	// Scratch streams overwrite the part of the buffer which they do not
	// fill, as io.Reader allows.
	Scratch bool `json:",omitempty"`
}

// stream is a seekable read stream over fixed bytes.
type stream struct {
	data  []byte
	pos   int64
	frag  Frag
	turn  int
	calls int // read and seek calls
	// faultCall >= 0: that call (counting reads and seeks) fails.
	faultCall int
	// faultPos >= 0: a read which reaches that position delivers the
	// bytes before it and fails.
	faultPos  int64
	faultErr  error
	once      bool // the fault happens once only
	faulted   int  // number of faults delivered
	faultFull bool // some fault came with all bytes asked for
	partial   int  // bytes delivered together with a faultCall fault
	closes    int
	closeErr  error
	steps     int // budget of calls
	maxRead   int64
	reads     int
	seeks     int
	seekEnds  int
	// If need is not nil, only these ranges may be read.
	need     [][2]int64
	needWhat string
}

func newStream(b []byte) *stream {
	effort.Add(10 + int64(len(b))/256)
	return &stream{data: b, faultCall: -1, faultPos: -1, faultErr: errInjected, steps: 2000000 + 200*min(len(b), 2500000)}
}

func (s *stream) step() {
	yield()
	effort.Add(1)
	s.calls++
	s.steps--
	if s.steps < 0 {
		panic(violation{fmt.Sprintf("endless loop: more than %d stream calls", s.calls-1)})
	}
}

func (s *stream) Read(p []byte) (n int, err error) {
	from := s.pos
	if s.need != nil && len(p) > 0 {
		s.allowed(from, from)
	}
	n, err = s.read(p)
	if s.need != nil && n > 0 {
		s.allowed(from, from+int64(n))
	}
	if s.frag.Scratch {
		rest := p[n:]
		for i := range rest[:min(len(rest), 200)] {
			rest[i] = 0xa5
		}
		if len(rest) > 0 {
			rest[len(rest)-1] = 0x5a
		}
	}
	return
}

// allowed complains if bytes are read, or asked for, which are not needed.
func (s *stream) allowed(from, to int64) {
	for _, r := range s.need {
		if from >= r[0] && from < r[1] && to <= r[1] {
			return
		}
	}
	panic(violation{fmt.Sprintf("%s reads the stream from %d to %d, it needs only %v", s.needWhat, from, to, s.need)})
}

func (s *stream) read(p []byte) (int, error) {
	s.step()
	s.reads++
	if s.faultCall >= 0 && s.calls-1 == s.faultCall || s.faultCall >= 0 && !s.once && s.calls-1 > s.faultCall {
		n := 0
		if s.pos < int64(len(s.data)) && s.partial > 0 {
			n = copy(p[:min(len(p), s.partial)], s.data[s.pos:])
			s.pos += int64(n)
		}
		s.faulted++
		s.faultFull = s.faultFull || n == len(p)
		return n, s.faultErr
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(s.frag.Sizes) > 0 {
		m := s.frag.Sizes[s.turn%len(s.frag.Sizes)]
		s.turn++
		n = min(n, m)
		if n == 0 && s.pos < int64(len(s.data)) {
			return 0, nil
		}
	}
	if s.pos >= int64(len(s.data)) && !(s.faultPos >= int64(len(s.data)) && s.pos >= s.faultPos && (!s.once || s.faulted == 0)) {
		return 0, io.EOF
	}
	if s.faultPos >= 0 && s.pos+int64(n) >= s.faultPos && s.pos <= s.faultPos && (!s.once || s.faulted == 0) {
		n = int(s.faultPos - s.pos)
		copy(p[:n], s.data[s.pos:])
		s.pos += int64(n)
		s.faulted++
		s.faultFull = s.faultFull || n == len(p)
		return n, s.faultErr
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += int64(n)
	if s.pos > s.maxRead {
		s.maxRead = s.pos
	}
	if s.frag.EOFNow && s.pos == int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *stream) Seek(off int64, whence int) (int64, error) {
	s.step()
	s.seeks++
	if s.faultCall >= 0 && (s.calls-1 == s.faultCall || !s.once && s.calls-1 > s.faultCall) {
		s.faulted++
		return 0, s.faultErr
	}
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = s.pos
	case io.SeekEnd:
		base = int64(len(s.data))
		s.seekEnds++
	default:
		return 0, errors.New("bad whence")
	}
	if base+off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = base + off
	return s.pos, nil
}

func (s *stream) close() error {
	s.closes++
	return s.closeErr
}

// Views of a stream with fewer methods.

type rOnly struct{ s *stream }

func (r rOnly) Read(p []byte) (int, error) { return r.s.Read(p) }

type rSeek struct{ s *stream }

func (r rSeek) Read(p []byte) (int, error)         { return r.s.Read(p) }
func (r rSeek) Seek(o int64, w int) (int64, error) { return r.s.Seek(o, w) }

type rClose struct{ s *stream }

func (r rClose) Read(p []byte) (int, error) { return r.s.Read(p) }
func (r rClose) Close() error               { return r.s.close() }

type rSeekClose struct{ s *stream }

func (r rSeekClose) Read(p []byte) (int, error)         { return r.s.Read(p) }
func (r rSeekClose) Seek(o int64, w int) (int64, error) { return r.s.Seek(o, w) }
func (r rSeekClose) Close() error                       { return r.s.close() }

// richRead has methods which some readers have in addition.
type richRead struct{ s *stream }

func (r richRead) Read(p []byte) (int, error) { return r.s.Read(p) }

func (r richRead) ReadByte() (byte, error) {
	var b [1]byte
	for {
		if n, err := r.s.Read(b[:]); n == 1 {
			return b[0], nil
		} else if err != nil {
			return 0, err
		}
	}
}

func (r richRead) Discard(n int) (done int, err error) {
	b := make([]byte, min(n, 4096))
	for done < n {
		k, err := r.s.Read(b[:min(len(b), n-done)])
		done += k
		if err != nil && done < n {
			return done, err
		}
	}
	return done, nil
}

func (r richRead) WriteTo(w io.Writer) (done int64, err error) {
	b := make([]byte, 4096)
	for {
		k, err := r.s.Read(b)
		n, werr := w.Write(b[:k])
		done += int64(n)
		if err == io.EOF {
			return done, werr
		} else if err != nil || werr != nil {
			return done, errors.Join(err, werr)
		}
	}
}

type richReadClose struct{ richRead }

func (r richReadClose) Close() error { return r.s.close() }

type richSeek struct{ richRead }

func (r richSeek) Seek(o int64, w int) (int64, error) { return r.s.Seek(o, w) }

func (r richSeek) Len() int { return max(0, len(r.s.data)-int(r.s.pos)) }

func (r richSeek) Size() int64 { return int64(len(r.s.data)) }

func (r richSeek) ReadAt(p []byte, at int64) (done int, err error) {
	keep := r.s.pos
	defer func() { r.s.pos = keep }()
	r.s.pos = at
	return io.ReadFull(r.s, p)
}

type richSeekClose struct{ richSeek }

func (r richSeekClose) Close() error { return r.s.close() }

func (s *stream) view(seek, close bool) io.Reader {
	switch {
	case s.frag.Rich && seek && close:
		return richSeekClose{richSeek{richRead{s}}}
	case s.frag.Rich && seek:
		return richSeek{richRead{s}}
	case s.frag.Rich && close:
		return richReadClose{richRead{s}}
	case s.frag.Rich:
		return richRead{s}
	case seek && close:
		return rSeekClose{s}
	case seek:
		return rSeek{s}
	case close:
		return rClose{s}
	}
	return rOnly{s}
}

func (s *stream) r() io.Reader      { return s.view(false, false) }
func (s *stream) rs() io.ReadSeeker { return s.view(true, false).(io.ReadSeeker) }

// realReader is a reader of the standard library over the rest of a stream.
// The bytes are also returned, so that they can be changed.
func (s *stream) realReader(kind string) (io.Reader, []byte) {
	rest := cp(s.data[s.pos:])
	switch kind {
	case "bytes":
		all := cp(s.data)
		r := bytes.NewReader(all)
		r.Seek(s.pos, io.SeekStart)
		return r, all
	case "buffer":
		return bytes.NewBuffer(rest), rest
	case "bufio":
		return bufio.NewReaderSize(rOnly{s}, 64), nil
	case "strings":
		r := strings.NewReader(string(s.data))
		r.Seek(s.pos, io.SeekStart)
		return r, nil
	case "section":
		all := cp(s.data)
		return io.NewSectionReader(bytes.NewReader(all), s.pos, int64(len(all))-s.pos), all
	case "file":
		f, err := os.CreateTemp("", "verif-stream-")
		if err != nil {
			harnessFail("%v", err)
		}
		os.Remove(f.Name())
		if _, err = f.Write(s.data); err == nil {
			_, err = f.Seek(s.pos, io.SeekStart)
		}
		if err != nil {
			harnessFail("%v", err)
		}
		return f, nil
	}
	harnessFail("unknown kind of reader %q", kind)
	return nil, nil
}

// sink is a write stream which can fail.
type sink struct {
	data []byte
	// faultPos >= 0: the stream accepts bytes up to that position and
	// then fails. faultCall >= 0: that call fails after accepting at most
	// partial bytes.
	faultPos  int
	faultCall int
	partial   int
	once      bool
	faultErr  error
	faulted   int
	calls     int
	closes    int
	closeErr  error
	steps     int
	hold      [][2][]byte // slices seen and their copies, to detect later changes
	mutated   bool
	after     int // writes attempted after the first fault
	rich      bool
}

func newSink() *sink {
	return &sink{faultPos: -1, faultCall: -1, faultErr: errInjected, steps: 1 << 24}
}

func (s *sink) Write(p []byte) (int, error) {
	yield()
	effort.Add(1 + int64(len(p))/256)
	s.calls++
	s.steps--
	if s.steps < 0 {
		panic(violation{"endless loop of write calls"})
	}
	if s.faulted > 0 {
		s.after++
	}
	if s.faultCall >= 0 && (s.calls-1 == s.faultCall || !s.once && s.calls-1 > s.faultCall) {
		n := min(len(p), s.partial)
		if s.faulted > 0 {
			n = 0
		}
		s.data = append(s.data, p[:n]...)
		s.faulted++
		return n, s.faultErr
	}
	if s.faultPos >= 0 && len(s.data)+len(p) > s.faultPos && (!s.once || s.faulted == 0) {
		n := max(0, s.faultPos-len(s.data))
		s.data = append(s.data, p[:n]...)
		s.faulted++
		return n, s.faultErr
	}
	s.data = append(s.data, p...)
	return len(p), nil
}

type wOnly struct{ s *sink }

func (w wOnly) Write(p []byte) (int, error) { return w.s.Write(p) }

type wClose struct{ s *sink }

func (w wClose) Write(p []byte) (int, error) { return w.s.Write(p) }
func (w wClose) Close() error {
	w.s.closes++
	return w.s.closeErr
}

// richWrite has methods which some writers have in addition.
type richWrite struct{ s *sink }

func (w richWrite) Write(p []byte) (int, error)       { return w.s.Write(p) }
func (w richWrite) WriteString(p string) (int, error) { return w.s.Write([]byte(p)) }
func (w richWrite) WriteByte(b byte) error {
	_, err := w.s.Write([]byte{b})
	return err
}
func (w richWrite) ReadFrom(r io.Reader) (done int64, err error) {
	b := make([]byte, 512)
	for {
		k, err := r.Read(b)
		n, werr := w.s.Write(b[:k])
		done += int64(n)
		if err == io.EOF {
			return done, werr
		} else if err != nil || werr != nil {
			return done, errors.Join(err, werr)
		}
	}
}

type richWriteClose struct{ richWrite }

func (w richWriteClose) Close() error { return wClose{w.s}.Close() }

func (s *sink) view(close bool) io.Writer {
	switch {
	case s.rich && close:
		return richWriteClose{richWrite{s}}
	case s.rich:
		return richWrite{s}
	case close:
		return wClose{s}
	}
	return wOnly{s}
}

func (s *sink) w() io.Writer { return s.view(false) }
