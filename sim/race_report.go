package main

import (
	"fmt"
	"os"
	"strings"
)

func raceReport() string {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/self/fd/%d", capFds[1]))
	s := string(b)
	if i := strings.Index(s, "DATA RACE"); i >= 0 {
		s = s[i:]
	}
	var fn []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-vtd-xml") && strings.HasPrefix(strings.TrimSpace(l), "github.com") {
			fn = append(fn, strings.TrimSpace(l))
			if len(fn) == 4 {
				break
			}
		}
	}
	return strings.Join(fn, "; ")
}
