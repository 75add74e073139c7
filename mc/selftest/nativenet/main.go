// nativenet: what the kernel does.
package main

import (
	"bufio"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/muguangyi/ferry/netlit"
)

func main() {
	netlit.Wait = 15 * time.Millisecond
	in := bufio.NewScanner(os.Stdin)
	q := make(chan string)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for k := 0; k < 100; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ops := range q {
				r := netlit.Run("127.0.0.1:0", ops)
				mu.Lock()
				fmt.Printf("%s\t%s\n", ops, r)
				mu.Unlock()
			}
		}()
	}
	for in.Scan() {
		q <- in.Text()
	}
	close(q)
	wg.Wait()
}
