package net

import rn "net"

type Interface struct {
	Index        int
	MTU          int
	Name         string
	HardwareAddr HardwareAddr
	Flags        Flags
}

func Interfaces() ([]Interface, error) {
	return []Interface{{1, 65536, "lo", nil, FlagUp | FlagLoopback},
		{2, 1500, "eth0", HardwareAddr{2, 0, 0, 0, 0, 1}, FlagUp}}, nil
}
func (i *Interface) Addrs() ([]Addr, error) {
	if i.Name == "lo" {
		return []Addr{&IPNet{IP: rn.IPv4(127, 0, 0, 1), Mask: rn.CIDRMask(8, 32)}}, nil
	}
	return []Addr{&IPNet{IP: rn.IPv4(10, 1, 2, 3), Mask: rn.CIDRMask(24, 32)}}, nil
}
