package server

import (
	"bytes"
	"fmt"
	"io"
	"log/slog"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/madkins23/go-slog/internal/zzverif/kit"
)

// The server always listens on port 8080. Each test process moves into a network
// namespace of its own, so that servers of several checks don't meet. Where that
// isn't possible a lock lets one server run at a time.

const address = "127.0.0.1:8080"

var alone = os.Getenv("VERIF_NETNS") == "1"

func TestMain(m *testing.M) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if os.Getenv("VERIF_NETNS") == "" && !listing() {
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Args[0] = os.Args[0]
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		cmd.Env = append(os.Environ(), "VERIF_NETNS=1")
		cmd.SysProcAttr = &syscall.SysProcAttr{
			Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
			UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
			GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
			Pdeathsig:   syscall.SIGKILL,
		}
		if err := cmd.Start(); err == nil {
			_ = cmd.Wait()
			if code := cmd.ProcessState.ExitCode(); code != 78 {
				os.Exit(code)
			}
		}
		_ = os.Setenv("VERIF_NETNS", "0")
	}
	if alone && !loopback() {
		os.Exit(78)
	}
	os.Exit(m.Run())
}

func listing() bool {
	for _, a := range os.Args {
		if strings.HasPrefix(a, "-test.list") {
			return true
		}
	}
	return false
}

// loopback switches the loopback interface of the namespace on.
func loopback() bool {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return false
	}
	defer func() { _ = syscall.Close(fd) }()
	var req struct {
		name  [16]byte
		flags uint16
		_     [22]byte
	}
	copy(req.name[:], "lo")
	req.flags = syscall.IFF_UP | syscall.IFF_RUNNING
	_, _, errno := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req)))
	return errno == 0
}

// process is a running server.
type process struct {
	cmd    *exec.Cmd
	dir    string
	stderr *os.File
	lock   *os.File
	done   chan struct{}
}

var client = &http.Client{
	Timeout:       100 * time.Second,
	Transport:     &http.Transport{MaxIdleConnsPerHost: 16},
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
}

func harness(err error) {
	if err != nil {
		panic("VERIF-HARNESS-ERROR " + err.Error())
	}
}

// start runs the server program with files in a directory of its own and waits until it answers.
// A server that ends instead gives nil, and what it wrote.
func start(program string, files map[string]string, args ...string) (*process, string) {
	p := &process{done: make(chan struct{})}
	var err error
	if !alone {
		p.lock, err = os.OpenFile("/tmp/verif-8080.lock", os.O_CREATE|os.O_RDWR, 0o600)
		harness(err)
		harness(syscall.Flock(int(p.lock.Fd()), syscall.LOCK_EX))
	}
	p.dir, err = os.MkdirTemp("", "server")
	harness(err)
	for name, text := range files {
		path := filepath.Join(p.dir, name)
		harness(os.MkdirAll(filepath.Dir(path), 0o700))
		harness(os.WriteFile(path, []byte(text), 0o600))
	}
	p.stderr, err = os.CreateTemp("", "stderr")
	harness(err)
	p.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), program), args...)
	p.cmd.Dir = p.dir
	p.cmd.Stdout, p.cmd.Stderr = p.stderr, p.stderr
	p.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GIN_MODE=release")
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	harness(p.cmd.Start())
	go func() {
		_ = p.cmd.Wait()
		close(p.done)
	}()
	for i := 0; ; i++ {
		select {
		case <-p.done:
			out := p.output()
			p.stop()
			return nil, out
		default:
		}
		if conn, err := net.DialTimeout("tcp", address, time.Second); err == nil {
			_ = conn.Close()
			return p, ""
		}
		if i > 6000 {
			out := p.output()
			p.stop()
			panic("VERIF-HARNESS-ERROR the server neither answers nor ends: " + out)
		}
		time.Sleep(time.Duration(min(10, 1+i/10)) * time.Millisecond)
		kit.Beat()
	}
}

func (p *process) output() string {
	b, _ := os.ReadFile(p.stderr.Name())
	if len(b) > 20000 {
		b = b[len(b)-20000:]
	}
	return string(b)
}

// stop ends the server at once.
func (p *process) stop() {
	client.CloseIdleConnections()
	_ = p.cmd.Process.Kill()
	<-p.done
	_ = p.stderr.Close()
	_ = os.Remove(p.stderr.Name())
	_ = os.RemoveAll(p.dir)
	if p.lock != nil {
		_ = p.lock.Close()
	}
}

func (p *process) running() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

type reply struct {
	status int
	kind   string
	body   string
}

// get asks for one page. The path is sent as it is.
func get(path string) (reply, error) {
	res, err := client.Get("http://" + address + path)
	if err != nil {
		return reply{}, err
	}
	defer func() { _ = res.Body.Close() }()
	var body bytes.Buffer
	if _, err = io.Copy(&body, res.Body); err != nil {
		return reply{}, err
	}
	return reply{res.StatusCode, res.Header.Get("Content-Type"), body.String()}, nil
}

// fetch is get for pages that are there.
func (p *process) fetch(c kit.Failer, path string) string {
	r, err := get(path)
	if err != nil {
		c.Fatalf("asking for %s fails: %v\n%s", path, err, p.tail())
	}
	if r.status != http.StatusOK {
		c.Fatalf("asking for %s gives status %d\n%s", path, r.status, p.tail())
	}
	return r.body
}

func (p *process) tail() string {
	out := p.output()
	if len(out) > 3000 {
		out = out[len(out)-3000:]
	}
	return fmt.Sprintf("server running: %v, its output ends:\n%s", p.running(), out)
}
