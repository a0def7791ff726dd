// Package simnet is the network of a simulated process: listeners and connections in memory.
package simnet

import (
	"errors"
	"net"
	"sync"
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Listener accepts simulated connections.
type Listener struct {
	addr   addr
	conns  chan net.Conn
	closed chan struct{}
	once   sync.Once
}

var (
	mu        sync.Mutex
	listeners = map[string]*Listener{}

	// FailListen makes Listen fail.
	FailListen error
	// Listening counts successful calls.
	Listening int
)

// Listen replaces net.Listen.
func Listen(network, address string) (net.Listener, error) {
	mu.Lock()
	defer mu.Unlock()
	if FailListen != nil {
		return nil, FailListen
	}
	if listeners[address] != nil {
		return nil, errors.New("listen " + network + " " + address + ": address already in use")
	}
	l := &Listener{addr: addr(address), conns: make(chan net.Conn), closed: make(chan struct{})}
	listeners[address] = l
	Listening++
	return l, nil
}

// Dial connects to a listener.
func Dial(address string) (net.Conn, error) {
	mu.Lock()
	l := listeners[address]
	mu.Unlock()
	if l == nil {
		return nil, errors.New("dial " + address + ": connection refused")
	}
	client, server := net.Pipe()
	select {
	case l.conns <- server:
		return client, nil
	case <-l.closed:
		return nil, errors.New("dial " + address + ": connection refused")
	}
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

// Close implements net.Listener.
func (l *Listener) Close() error {
	l.once.Do(func() {
		close(l.closed)
		mu.Lock()
		delete(listeners, string(l.addr))
		mu.Unlock()
	})
	return nil
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return l.addr }
