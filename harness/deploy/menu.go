package deploy

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"aaverif/hx"
)

// Menu is a running interactive program on a terminal of its own.
type Menu struct {
	cmd  *exec.Cmd
	tty  *os.File
	done chan struct{}
	exit int

	mu   sync.Mutex // guards the output
	out  bytes.Buffer
	last time.Time
}

func ioctl(f *os.File, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// terminal opens a pseudo-terminal.
func terminal() (master, slave *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	master = os.NewFile(uintptr(fd), "/dev/ptmx")
	var zero, n int32
	if err = ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err == nil {
		err = ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	}
	size := [4]uint16{60, 4000, 0, 0}
	if err == nil {
		err = ioctl(master, syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	}
	if err == nil {
		slave, err = os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

// StartMenu runs the interactive program. It is nil without an error if there
// are no terminals here.
func StartMenu(bin, pointConf, complexConf string) (*Menu, error) {
	for try := 0; ; try++ {
		master, slave, err := terminal()
		if err != nil {
			return nil, nil
		}
		m := &Menu{tty: master, done: make(chan struct{}), last: time.Now()}
		m.cmd = exec.Command(bin)
		m.cmd.Dir = hx.WorkDir()
		m.cmd.Env = append(os.Environ(), "VPIR_CONFIG_POINT="+pointConf, "VPIR_CONFIG_COMPLEX="+complexConf, "HX_CHILD=", "TERM=xterm", "GORACE=halt_on_error=0")
		m.cmd.Stdin, m.cmd.Stdout, m.cmd.Stderr = slave, slave, slave
		m.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0, Pdeathsig: syscall.SIGKILL}
		if err := m.cmd.Start(); err != nil {
			hx.Broken("starting the interactive program: %v", err)
		}
		slave.Close()
		go m.read()
		go func() {
			m.cmd.Wait()
			m.exit = m.cmd.ProcessState.ExitCode()
			close(m.done)
		}()
		if _, err = m.wait(0, askAction); err == nil {
			return m, nil
		}
		m.Stop()
		if try == 4 { // connecting has a short time limit
			return nil, err
		}
	}
}

func (m *Menu) read() {
	buf := make([]byte, 65536)
	for {
		n, err := m.tty.Read(buf)
		m.mu.Lock()
		m.out.Write(buf[:n])
		m.last = time.Now()
		m.mu.Unlock()
		// terminals tell where the cursor is
		for k := bytes.Count(buf[:n], []byte("\x1b[6n")); k > 0; k-- {
			m.tty.Write([]byte("\x1b[1;1R"))
		}
		if err != nil {
			return
		}
	}
}

var escapes = regexp.MustCompile(`\x1b\[[0-9;?]*[A-Za-z]|\x1b[78]`)

// The questions of the program.
const (
	askAction = "What do you want to do"
	askEmail  = "Enter the email"
	askStat   = "What kind of stat"
	askWhat   = "What attribute"
	askPos    = "Select the kind of query"
	askText   = "Enter your query text"
	askAlgo   = "Select the kind of algo"
	askYear   = "Enter a year"
	result    = "Type enter to continue"
)

// wait waits until the program asks the question after the given position of its
// output and reads from the terminal. It yields the output since then.
func (m *Menu) wait(from int, question string) (string, error) {
	deadline := time.Now().Add(60 * time.Second)
	for {
		ended := m.Exited()
		m.mu.Lock()
		out := m.out.String()[from:]
		quiet := time.Since(m.last)
		m.mu.Unlock()
		plain := escapes.ReplaceAllString(out, "")
		// the program also asks the terminal where the cursor is, and forgets
		// keys that are typed before the reply
		if strings.Contains(plain, question) && m.raw() && quiet > 150*time.Millisecond {
			return plain, nil
		}
		if ended {
			return plain, fmt.Errorf("the interactive program ended (exit %d) before the question %q", m.exit, question)
		}
		if time.Now().After(deadline) {
			return plain, fmt.Errorf("the interactive program did not get to the question %q within 60 s:\n%s", question, Clip(plain))
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// raw tells whether the program reads single keys.
func (m *Menu) raw() bool {
	var t syscall.Termios
	return ioctl(m.tty, syscall.TCGETS, unsafe.Pointer(&t)) == nil && t.Lflag&syscall.ICANON == 0
}

// enter types a line and waits for the next question.
func (m *Menu) enter(text, next string) (string, error) {
	m.mu.Lock()
	from := m.out.Len()
	m.mu.Unlock()
	m.tty.Write([]byte(text))
	for k := 0; k < 200 && text != ""; k++ { // the echo
		m.mu.Lock()
		quiet, n := time.Since(m.last), m.out.Len()
		m.mu.Unlock()
		if n > from && quiet > 50*time.Millisecond || m.Exited() {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	m.mu.Lock()
	from = m.out.Len()
	m.mu.Unlock()
	m.tty.Write([]byte("\r"))
	return m.wait(from, next)
}

// Exited tells whether the program has ended.
func (m *Menu) Exited() bool {
	select {
	case <-m.done:
		return true
	default:
		return false
	}
}

// Stop ends the program.
func (m *Menu) Stop() {
	m.cmd.Process.Kill()
	<-m.done
	m.tty.Close()
}

var menuResult = regexp.MustCompile(`(?s)Result of .*?: (\d+)\.`)

// Ask answers the questions of the program.
func (m *Menu) Ask(r *Request) error {
	var out string
	for k := 0; k < len(r.Menu); k += 2 {
		o, err := m.enter(r.Menu[k], r.Menu[k+1])
		out += o
		if err != nil {
			if m.Exited() && m.exit > 0 && k == len(r.Menu)-2 {
				return r.Check("", 0, false, true, out)
			}
			return fmt.Errorf("%s (%q): %v\n%s", r.Desc, r.Menu, err, Clip(out))
		}
	}
	if strings.Contains(out, "DATA RACE") {
		return fmt.Errorf("the interactive program has a data race:\n%s", Clip(out))
	}
	var num uint64
	hasNum := false
	if x := menuResult.FindStringSubmatch(out); x != nil {
		num, _ = strconv.ParseUint(x[1], 10, 64)
		hasNum = true
		if o, err := m.enter("", askAction); err != nil {
			return fmt.Errorf("%s (%q): %v\n%s", r.Desc, r.Menu, err, Clip(o))
		}
	}
	armored := ""
	const b, e = "-----BEGIN PGP PUBLIC KEY BLOCK-----", "-----END PGP PUBLIC KEY BLOCK-----"
	if i, j := strings.Index(out, b), strings.Index(out, e); i >= 0 && j > i {
		armored = strings.ReplaceAll(out[i:j+len(e)], "\r\n", "\n")
	}
	failed := strings.Contains(out, "No key is found")
	return r.Check(armored, num, hasNum, failed, "interactive program: "+Clip(out))
}
