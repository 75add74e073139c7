// hnet: what the virtual network makes of sequences of operations.
package main

import (
	"bufio"
	"fmt"
	"os"

	"github.com/muguangyi/ferry/netlit"
	"github.com/muguangyi/ferry/zzvs"
)

func main() {
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		ops := in.Text()
		sc := &zzvs.Scenario{Name: ops, New: func() (func(), func(w *zzvs.World)) {
			var r string
			return func() { r = netlit.Run("127.0.0.1:9", ops) }, func(w *zzvs.World) { w.Outcome = r }
		}}
		got, _ := zzvs.Outcomes(sc, 2)
		for o := range got {
			fmt.Printf("%s\t%s\n", ops, o)
		}
	}
}
