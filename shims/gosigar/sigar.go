// Package sigar is a stand-in for github.com/cloudfoundry/gosigar.
package sigar

import (
	"bufio"
	"os"
	"strconv"
	"strings"
)

// Mem is the memory of the machine, in bytes.
type Mem struct {
	Total      uint64
	Used       uint64
	Free       uint64
	ActualFree uint64
	ActualUsed uint64
}

// Get reads /proc/meminfo.
func (m *Mem) Get() error {
	f, err := os.Open("/proc/meminfo")
	if err != nil {
		return err
	}
	defer f.Close()
	v := map[string]uint64{}
	s := bufio.NewScanner(f)
	for s.Scan() {
		p := strings.Fields(s.Text())
		if len(p) >= 2 {
			n, _ := strconv.ParseUint(p[1], 10, 64)
			v[strings.TrimSuffix(p[0], ":")] = n * 1024
		}
	}
	m.Total, m.Free = v["MemTotal"], v["MemFree"]
	m.ActualFree = v["MemAvailable"]
	m.Used, m.ActualUsed = m.Total-m.Free, m.Total-m.ActualFree
	return nil
}
