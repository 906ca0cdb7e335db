package snet

import (
	"net"
	"time"
	"verif/simrt"
)

type TCPConn = simrt.TCPConn
type TCPListener = simrt.TCPListener
type UDPConn = simrt.UDPConn
type Dialer = simrt.Dialer

func Listen(n, a string) (net.Listener, error)                   { return simrt.Listen(n, a) }
func ListenTCP(n string, a *net.TCPAddr) (*TCPListener, error)   { return simrt.ListenTCP(n, a) }
func ListenUDP(n string, a *net.UDPAddr) (*UDPConn, error)       { return simrt.ListenUDP(n, a) }
func ListenPacket(n, a string) (net.PacketConn, error)           { return simrt.ListenPacket(n, a) }
func Dial(n, a string) (net.Conn, error)                         { return simrt.Dial(n, a) }
func DialTimeout(n, a string, d time.Duration) (net.Conn, error) { return simrt.DialTimeout(n, a, d) }
func DialTCP(n string, l, r *net.TCPAddr) (*TCPConn, error)      { return simrt.DialTCP(n, l, r) }
func DialUDP(n string, l, r *net.UDPAddr) (*UDPConn, error)      { return simrt.DialUDP(n, l, r) }
func ResolveTCPAddr(n, a string) (*net.TCPAddr, error)           { return simrt.ResolveTCPAddr(n, a) }
func ResolveUDPAddr(n, a string) (*net.UDPAddr, error)           { return simrt.ResolveUDPAddr(n, a) }

type ListenConfig = simrt.ListenConfig

func Pipe() (net.Conn, net.Conn) { return simrt.NetPipe() }
