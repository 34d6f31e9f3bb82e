package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	hangCPU  = 25 * time.Second  // cpu time of one run that counts as a hang
	hangWall = 150 * time.Second // wall time without cpu use that counts as blocked
)

// child is a worker or serving process.
type child struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	errBuf *tailBuf
	last   atomic.Int64 // wall ns of last message
	cpu0   atomic.Int64 // child's cpu ns at last message
	killed atomic.Value // reason
	done   chan struct{}
}

type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (b *tailBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if n := 16384 - len(b.head); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		b.head = append(b.head, p[:n]...)
	}
	return len(p), nil
}

func (b *tailBuf) String() string { b.mu.Lock(); defer b.mu.Unlock(); return string(b.head) }

func spawn(mode string) (*child, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := &child{cmd: exec.Command(self, mode), errBuf: &tailBuf{}, done: make(chan struct{})}
	c.cmd.Env = []string{"GOMAXPROCS=1", "GOTRACEBACK=single", "GOGC=200", "PATH=/usr/bin:/bin", "HOME=/nonexistent", "VERIF_CANARY=0", "TMPDIR=" + os.TempDir()}
	c.cmd.Stderr = c.errBuf
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.cmd.ExtraFiles = []*os.File{pw}
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if c.in, err = c.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	if err := c.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	c.out = bufio.NewReaderSize(pr, 1<<20)
	c.touch()
	go c.watch()
	return c, nil
}

func (c *child) cpu() int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", c.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return (u + k) * 10 * int64(time.Millisecond)
}

func (c *child) touch() {
	c.last.Store(time.Now().UnixNano())
	c.cpu0.Store(-1)
}

// watch ends a child whose current run uses unreasonable cpu time, or
// none at all for very long.
func (c *child) watch() {
	for {
		select {
		case <-c.done:
			return
		case <-time.After(2 * time.Second):
		}
		idle := time.Now().UnixNano() - c.last.Load()
		if idle < int64(4*time.Second) {
			continue
		}
		cpu := c.cpu()
		if cpu < 0 {
			continue
		}
		if c.cpu0.Load() < 0 {
			c.cpu0.Store(cpu)
			continue
		}
		if cpu-c.cpu0.Load() > int64(hangCPU) {
			c.killed.Store("hang")
			c.cmd.Process.Kill()
			return
		}
		if idle > int64(hangWall) {
			if cpu-c.cpu0.Load() < int64(time.Second) {
				c.killed.Store("blocked")
			} else {
				c.killed.Store("slow")
			}
			c.cmd.Process.Kill()
			return
		}
	}
}

func (c *child) close() string {
	c.in.Close()
	err := c.cmd.Wait()
	close(c.done)
	if err != nil {
		return err.Error()
	}
	return ""
}

func (c *child) kill() {
	c.cmd.Process.Kill()
	c.close()
}

// deathClass names how a child died.
func (c *child) deathClass(werr string) (class, msg string) {
	if k, _ := c.killed.Load().(string); k != "" {
		return "process-" + k, "the run did not return: " + k
	}
	e := c.errBuf.String()
	first := strings.SplitN(e, "\n", 2)[0]
	switch {
	case strings.Contains(e, "stack overflow") || strings.Contains(e, "stack exceeds"):
		return "process-death:stack-overflow", "host process killed by Go stack overflow: " + first
	case strings.Contains(e, "all goroutines are asleep"):
		return "process-death:deadlock", "host process killed: " + first
	case strings.Contains(e, "out of memory") || strings.Contains(e, "cannot allocate"):
		return "process-death:oom", "host process ran out of memory: " + first
	case strings.Contains(e, "fatal error:"):
		return "process-death:fatal", "host process killed: " + e[:min(len(e), 400)]
	case strings.Contains(e, "panic:"):
		return "process-death:panic", "host process killed: " + e[:min(len(e), 400)]
	}
	if strings.Contains(werr, "killed") {
		return "process-killed", "worker ended from outside: " + werr
	}
	return "process-exit", "host process exited: " + werr + " " + first
}

// Oracle runs recorded choices in a separate process.
type Oracle struct {
	c     *child
	Fresh bool // a new process for every try
	Tries int
}

func (o *Oracle) Close() {
	if o.c != nil {
		o.c.kill()
		o.c = nil
	}
}

func (o *Oracle) Try(rq TryReq) (TryRep, error) {
	o.Tries++
	if o.c == nil || o.Fresh {
		o.Close()
		c, err := spawn("serve")
		if err != nil {
			return TryRep{}, err
		}
		o.c = c
	}
	b, _ := json.Marshal(rq)
	o.c.touch()
	o.c.in.Write(append(b, '\n'))
	line, err := o.c.out.ReadBytes('\n')
	if err == nil {
		var rep TryRep
		if err := json.Unmarshal(line, &rep); err != nil {
			return rep, err
		}
		return rep, nil
	}
	werr := o.c.close()
	cl, msg := o.c.deathClass(werr)
	o.c = nil
	return TryRep{Class: cl, Msg: msg, Choices: rq.Choices}, nil
}
