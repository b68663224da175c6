package verifcli

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	rt "github.com/giulianopz/go-readability/internal/verifrt"
)

// machine is the simulated computer the tool runs on.
type machine struct {
	s     *Scn
	start time.Time
	mu    sync.Mutex
	dials int
	log   *os.File
	out   device
	err   device
}

type device struct {
	name     string
	faults   []IOFault
	accepted int
	spent    map[int]bool
}

// event is the record of the run: simulated time and what happened.
func (m *machine) event(f string, a ...any) {
	line := fmt.Sprintf("%d ", time.Since(m.start).Microseconds()) + fmt.Sprintf(f, a...) + "\n"
	syscall.Write(int(m.log.Fd()), []byte(line))
}

// child runs the tool's own main on the simulated machine.
func child(mainFn func()) {
	data, err := os.ReadFile(os.Getenv("VERIF_SCN"))
	if err != nil {
		os.Exit(97)
	}
	var s Scn
	if json.Unmarshal(data, &s) != nil {
		os.Exit(97)
	}
	m := &machine{s: &s, log: os.NewFile(3, "events")}
	m.log.Fd()
	m.out = device{name: "out", faults: s.Out, spent: map[int]bool{}}
	m.err = device{name: "err", faults: s.Err, spent: map[int]bool{}}
	os.Unsetenv("VERIF_CLI")
	os.Unsetenv("VERIF_SCN")
	rt.SeedRuntime(s.Seed*1000003 + s.Run)
	synctest.VerifRun(func() {
		m.start = time.Now()
		net.VerifDial = m.dial
		os.VerifWrite = m.write
		os.VerifPath = m.path
		mainFn()
		m.event("main returned")
		os.VerifWrite = nil
		os.Exit(0)
	})
}

// path keeps the files the tool makes inside its home directory.
func (m *machine) path(name string, create bool) string {
	home := syscallHome()
	if !filepath.IsAbs(name) || name == home || strings.HasPrefix(name, home+"/") || strings.HasPrefix(name, "/dev/") || strings.HasPrefix(name, "/proc/") {
		return name
	}
	os.VerifPath = nil
	defer func() { os.VerifPath = m.path }()
	p := filepath.Join(home, "root", name)
	if _, err := os.Lstat(p); err == nil {
		return p
	}
	if !create {
		return name
	}
	if d, err := os.Stat(filepath.Dir(name)); err == nil && d.IsDir() {
		os.MkdirAll(filepath.Dir(p), 0o755)
	}
	return p
}

func syscallHome() string {
	h, _ := syscall.Getenv("HOME")
	return h
}

// write is the device behind stdout and stderr.
func (m *machine) write(f *os.File, b []byte) (int, error, bool) {
	var d *device
	switch f {
	case os.Stdout:
		d = &m.out
	case os.Stderr:
		d = &m.err
	default:
		return 0, nil, false
	}
	n := len(b)
	var fail error
	for i, x := range d.faults {
		if d.spent[i] || x.Off > d.accepted+len(b) || x.Off == d.accepted+len(b) && x.Kind != "slow" {
			continue
		}
		if x.Kind == "slow" {
			d.spent[i] = true
			m.event("%s slow", d.name)
			time.Sleep(time.Duration(x.Delay) * time.Millisecond)
			continue
		}
		if x.Once {
			d.spent[i] = true
		}
		n = max(0, x.Off-d.accepted)
		switch x.Kind {
		case "short":
			fail = io.ErrShortWrite
		case "eio":
			fail = &os.PathError{Op: "write", Path: f.Name(), Err: syscall.EIO}
		case "epipe":
			fail = &os.PathError{Op: "write", Path: f.Name(), Err: syscall.EPIPE}
		default:
			fail = &os.PathError{Op: "write", Path: f.Name(), Err: syscall.ENOSPC}
		}
		m.event("%s fault %s at %d", d.name, x.Kind, d.accepted+n)
		break
	}
	fd := 1
	if d == &m.err {
		fd = 2
	}
	for p := b[:n]; len(p) > 0; {
		k, err := syscall.Write(fd, p)
		if err == syscall.EINTR || err == syscall.EAGAIN {
			continue
		}
		if err != nil {
			break
		}
		p = p[k:]
	}
	d.accepted += n
	return n, fail, true
}

// dial is the network.
func (m *machine) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	m.mu.Lock()
	m.dials++
	n := m.dials
	m.mu.Unlock()
	op := func(err error) error {
		return &net.OpError{Op: "dial", Net: network, Err: err}
	}
	wrfail := false
	for _, d := range m.s.Dials {
		if d.N != n {
			continue
		}
		m.event("dial %d %s", n, d.By)
		switch d.By {
		case "refused":
			return nil, op(os.NewSyscallError("connect", syscall.ECONNREFUSED))
		case "unreach":
			return nil, op(os.NewSyscallError("connect", syscall.ENETUNREACH))
		case "nohost":
			return nil, op(&net.DNSError{Err: "no such host", Name: addr, IsNotFound: true})
		case "timeout":
			time.Sleep(30 * time.Second)
			return nil, op(os.NewSyscallError("connect", syscall.ETIMEDOUT))
		case "slow":
			time.Sleep(3 * time.Second)
		case "wrfail":
			wrfail = true
		}
	}
	c := &conn{m: m, id: n, wrfail: wrfail, wake: make(chan struct{}, 1), inW: make(chan struct{}, 1), addr: addr}
	go c.serve()
	return c, nil
}

// conn is one simulated connection: what the client wrote (in) and what the
// network has delivered to it so far (buf).
type conn struct {
	m      *machine
	id     int
	addr   string
	wrfail bool

	mu     sync.Mutex
	buf    []byte
	end    error // after buf: io.EOF or a reset
	wake   chan struct{}
	in     []byte
	inEnd  bool
	inW    chan struct{}
	closed bool
	rdl    time.Time
}

type nowait struct{}

func (nowait) Error() string   { return "i/o timeout" }
func (nowait) Timeout() bool   { return true }
func (nowait) Temporary() bool { return true }

func poke(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

func (c *conn) Read(b []byte) (int, error) {
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		if len(c.buf) > 0 {
			n := copy(b, c.buf)
			c.buf = c.buf[n:]
			c.mu.Unlock()
			return n, nil
		}
		end, dl := c.end, c.rdl
		c.mu.Unlock()
		if end != nil {
			return 0, end
		}
		if !dl.IsZero() {
			d := time.Until(dl)
			if d <= 0 {
				return 0, &net.OpError{Op: "read", Net: "tcp", Err: nowait{}}
			}
			t := time.NewTimer(d)
			select {
			case <-c.wake:
			case <-t.C:
			}
			t.Stop()
			continue
		}
		<-c.wake
	}
}

func (c *conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.wrfail || c.end != nil && c.end != io.EOF {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	c.in = append(c.in, b...)
	poke(c.inW)
	return len(b), nil
}

func (c *conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
	c.inEnd = true
	poke(c.wake)
	poke(c.inW)
	return nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *conn) LocalAddr() net.Addr  { return addr("192.0.2.1:4000") }
func (c *conn) RemoteAddr() net.Addr { return addr(c.addr) }
func (c *conn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	poke(c.wake)
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

// serverSide reads what the client has written.
type serverSide struct{ c *conn }

func (s serverSide) Read(b []byte) (int, error) {
	for {
		s.c.mu.Lock()
		if len(s.c.in) > 0 {
			n := copy(b, s.c.in)
			s.c.in = s.c.in[n:]
			s.c.mu.Unlock()
			return n, nil
		}
		e := s.c.inEnd
		s.c.mu.Unlock()
		if e {
			return 0, io.EOF
		}
		<-s.c.inW
	}
}

var errReset = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}

func (c *conn) finish(by string) {
	c.mu.Lock()
	if by == "rst" {
		c.end = errReset
	} else {
		c.end = io.EOF
	}
	c.mu.Unlock()
	poke(c.wake)
	c.m.event("conn %d %s", c.id, by)
}

func (c *conn) push(b []byte) {
	if len(b) == 0 {
		return
	}
	c.mu.Lock()
	c.buf = append(c.buf, b...)
	c.mu.Unlock()
	poke(c.wake)
}

// manner is what is remarkable about a request.
func manner(req *http.Request) string {
	s := ""
	if req.Method != "GET" {
		s += " method=" + req.Method
	}
	if n, _ := io.Copy(io.Discard, req.Body); n > 0 || req.ContentLength > 0 {
		s += " body"
	}
	if req.Header.Get("Authorization") != "" {
		s += " auth"
	}
	if req.Header.Get("Cookie") != "" {
		s += " cookie"
	}
	return s
}

// serve is the origin server on this connection.
func (c *conn) serve() {
	br := bufio.NewReader(serverSide{c})
	kill := false
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		if kill {
			c.m.event("conn %d killed on reuse", c.id)
			c.finish("rst")
			return
		}
		key := req.Host + req.URL.RequestURI()
		r, ok := c.m.s.Routes[key]
		c.m.event("conn %d request %s%s", c.id, key, manner(req))
		if !ok {
			r = Route{Status: 404, Frame: "len", Body: "no such page"}
		}
		gz := false
		for _, v := range req.Header["Accept-Encoding"] {
			gz = gz || v == "gzip" || len(v) > 4 && (v[:5] == "gzip,")
		}
		w, _ := r.wire(gz)
		full := len(w)
		if r.Cut > 0 && r.Cut-1 < len(w) {
			w = w[:r.Cut-1]
		}
		for _, sg := range r.Segs {
			if len(w) == 0 {
				break
			}
			if sg.Ms > 0 {
				time.Sleep(time.Duration(sg.Ms) * time.Millisecond)
			}
			n := min(max(sg.N, 1), len(w))
			c.push(w[:n])
			w = w[n:]
		}
		c.push(w)
		c.m.event("conn %d sent %d", c.id, full)
		switch {
		case r.Cut > 0 || r.Raw != "" || r.Chunk0 != "":
			time.Sleep(time.Millisecond)
			by := r.CutBy
			if by == "" {
				by = "fin"
			}
			c.finish(by)
			return
		case r.Frame == "close" || r.After == "close":
			c.finish("fin")
			return
		case r.After == "idleclose":
			time.Sleep(time.Millisecond)
			c.finish("fin")
			return
		case r.After == "killnext":
			kill = true
		}
	}
}

var _ = errors.New
