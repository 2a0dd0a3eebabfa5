package nd

import "sync"

// TogetherMsg is what Together asserts.
const TogetherMsg = "sections used at the same time share no memory that is written"

// Together runs f twice at the same time. f uses nothing of this package and
// returns nothing. It fails when f writes memory both runs have in common, without
// synchronisation; natively only in a program built with -race.
func Together(f func()) {
	before := races()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var p any
	for range 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					p = r
					mu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
	if p != nil {
		panic(p)
	}
	if races() != before {
		panic(assertFail{TogetherMsg})
	}
}
