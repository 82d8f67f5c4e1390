// Package table stands in for github.com/phil-mansfield/table, which is not available offline. It
// reads whitespace-separated columns of numbers, skipping blank lines and '#' comments.
package table

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"
)

// Config is unused: gotetra always passes nil.
type Config struct{}

// ReadTable returns the requested columns of a text table.
func ReadTable(file string, cols []int, config *Config) ([][]float64, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	out := make([][]float64, len(cols))
	for i := range out {
		out[i] = []float64{}
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	line := 0
	for sc.Scan() {
		line++
		s := sc.Text()
		if i := strings.IndexByte(s, '#'); i >= 0 {
			s = s[:i]
		}
		w := strings.Fields(s)
		if len(w) == 0 {
			continue
		}
		for i, c := range cols {
			if c >= len(w) {
				return nil, fmt.Errorf("%s:%d: no column %d", file, line, c)
			}
			x, err := strconv.ParseFloat(w[c], 64)
			if err != nil {
				return nil, err
			}
			out[i] = append(out[i], x)
		}
	}
	return out, sc.Err()
}
