package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	debugTime = os.Getenv("TIMES") != ""
	if len(os.Args) > 1 && os.Args[1] == "debug" {
		debugMain()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "sweep" {
		sweepMain()
		return
	}

	checkMain()
}

// sweepMain: edtfcheck sweep FAMILY [TEXT-SUBSTRING]
func sweepMain() {
	w, err := loadWorld(repoRoot(), loadSpec{patterns: []string{"./..."}})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	in := newInterp(w)
	s := newSweep(&Lib{in, w}, in.start())
	s.matches, s.general, s.purity = true, true, true
	s.direct = os.Getenv("DIRECT") != ""
	t0 := time.Now()
	for _, c := range families(os.Getenv("ALL") != "")[os.Args[2]] {
		if len(os.Args) > 3 && !strings.Contains(c.text, os.Args[3]) {
			continue
		}
		s.class(c)
	}
	seen := map[string]int{}
	for _, m := range s.out {
		k := m.Aspect + m.Class + m.Field + strings.Split(m.Where, " < ")[0]
		seen[k]++
		if seen[k] > 1 || len(seen) > 40 {
			continue
		}
		fmt.Printf("%-10s %s %q %s: want %s got %s at %s\n", m.Aspect, m.Class, m.Input, m.Field, m.Want, m.Got, strings.Split(m.Where, " < ")[0])
	}
	fmt.Println(len(s.out), "mismatches")
	for _, u := range s.undec {
		fmt.Println("UNDECIDED", u)
	}
	for _, u := range s.slow {
		fmt.Println("SLOW", u)
	}
	fmt.Println(s.classes, "worlds", s.worlds, "oblig", s.oblig, "known", sortStrings(s.known), "max steps", s.maxUsed, time.Since(t0))
}
