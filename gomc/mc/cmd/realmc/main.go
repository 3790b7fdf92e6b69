// realmc runs sequences of operations of the Go binding on the real library.
package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	possum "github.com/anacrolix/possum/go"

	"gomc.local/mc/harness"
)

func main() {
	scratch := os.Args[1]
	ops := harness.Ops()
	in := bufio.NewScanner(os.Stdin)
	for n := 0; in.Scan(); n++ {
		dir := filepath.Join(scratch, fmt.Sprint("store-", n))
		fmt.Println(run(dir, ops, strings.Fields(in.Text())))
		os.RemoveAll(dir)
	}
}

func run(dir string, ops []harness.Op, seq []string) string {
	if err := os.Mkdir(dir, 0o700); err != nil {
		panic(err)
	}
	h, err := possum.Open(dir)
	if err != nil {
		return "open: " + err.Error()
	}
	e := &harness.Env{H: h, Dir: dir}
	var obs []string
	for _, op := range harness.Setup() {
		obs = append(obs, e.Do(op))
	}
	for _, f := range seq {
		i, _ := strconv.Atoi(f)
		obs = append(obs, e.Do(ops[i]))
	}
	obs = append(obs, e.Do(harness.List("")))
	e.Do(harness.Close())
	obs = append(obs, e.Errs...)
	return strings.Join(obs, " | ")
}
