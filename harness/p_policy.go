package main

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"terorie.dev/nimiq/policy"
)

// ---- model of the emission schedule ----

const (
	refTotal     = 2_100_000_000_000_000
	refInitial   = 252_000_000_000_000
	refTailStart = 48_692_960
	refTail      = 4000
	refSpeed     = 1 << 22
	// emissionEnd is a height after the last reward.
	emissionEnd = 53_000_000
	refStep     = 1000
)

func refRewardAt(supply uint64, height uint64) uint64 {
	left := refTotal - supply
	if height >= refTailStart && left >= refTail {
		return refTail
	}
	return left >> 22
}

// refSupply[i] is the supply after height i*refStep.
var refSupply []uint64
var refSupplyOnce sync.Once

func refSupplyTable() []uint64 {
	refSupplyOnce.Do(func() {
		s := uint64(refInitial)
		refSupply = append(refSupply, s)
		for h := uint64(1); h <= emissionEnd; h++ {
			s += refRewardAt(s, h)
			if h%refStep == 0 {
				refSupply = append(refSupply, s)
			}
		}
	})
	return refSupply
}

func refSupplyAfter(height uint64) uint64 {
	tab := refSupplyTable()
	i := height / refStep
	if i >= uint64(len(tab)-1) {
		i = uint64(len(tab) - 1)
		return tab[i] // nothing is left to hand out
	}
	s := tab[i]
	for h := i*refStep + 1; h <= height; h++ {
		s += refRewardAt(s, h)
	}
	return s
}

func refReward(height uint64) uint64 { return refRewardAt(refSupplyAfter(height-1), height) }

// genHeight prefers the edges of everything that has edges.
func genHeight(r *Rand) uint64 {
	if r.P(1, 10) {
		if h, ok := r.Const(54_000_000); ok {
			return h
		}
	}
	switch r.N(8) {
	case 0:
		return uint64(r.N(10))
	case 1: // around the cache interval
		return uint64(r.N(10_600)*5000 + r.In(-2, 2) + 5000)
	case 2:
		return uint64(refTailStart + r.In(-3, 3))
	case 3: // end of the emission
		return uint64(52_888_985 + r.In(-3, 3))
	case 4:
		return uint64(r.N(20_000))
	case 5:
		return uint64(r.N(300)*5000 + r.N(3))
	default:
		return uint64(r.N(54_000_000))
	}
}

func init() {
	register(Property{
		ID:         "P01",
		Rule:       "heights 1 to 53,000,000 in order (rewards by supply and ranges of the schedule, every height), supplies and rewards around every cache boundary, and cold processes asked for heights in random, descending and repeated orders; every answer is compared with a model of the emission; a case is non-trivial if its height or order was not seen before",
		Exhaustive: false,
		Workloads: []Workload{
			{Name: "schedule", Quick: 53, Thorough: 53, Fn: p01Schedule, Need: []string{"heights by supply"}},
			{Name: "boundaries", Quick: 16, Thorough: 16, Fn: p01Boundaries, Need: []string{"supplies queried"}},
			{Name: "orders", Quick: 128, Thorough: 2000, Fn: p01Orders, Need: []string{"cold queries"}},
			{Name: "far", Quick: 2, Thorough: 4, Fn: p01Far},
			{Name: "every height", Quick: 0, Thorough: 530, Fn: p01Every},
		},
	})
	register(Property{
		ID:   "P02",
		Rule: "triples of heights and (for the reward function alone) arbitrary supplies up to the total; order, bounds, and additivity over splits of the reported values are checked against each other and against rewards summed one by one; a case is non-trivial if its heights were not seen before",
		Workloads: []Workload{
			{Name: "ranges", Quick: 8000, Thorough: 100000, Fn: p02Ranges, Need: []string{"splits"}},
			{Name: "supplies", Quick: 16000, Thorough: 100000, Fn: p02Supplies},
			{Name: "long ranges", Quick: 600, Thorough: 6000, Fn: p02Long, Need: []string{"long splits"}},
			{Name: "ascent", Quick: 24, Thorough: 200, Fn: p02Ascent, Need: []string{"steps up the schedule"}},
		},
	})
	register(Property{
		ID:    "P03",
		Level: "exploration",
		Rule:  "processes started cold, in which 2 to 64 goroutines released at once query rewards and supplies at shared and distinct heights, built with the race detector; every answer is compared with a model; a case is non-trivial if its set of queries was not seen before",
		Workloads: []Workload{
			{Name: "cold start", Quick: 120, Thorough: 3000, Fn: p03, Need: []string{"concurrent queries", "answers computed while others were computed"}},
		},
	})
	children["policy-orders"] = childPolicyOrders
	children["policy-race"] = childPolicyRace
}

func p01Schedule(t *T) {
	from := uint64(t.Idx)*1_000_000 + 1
	s := refSupplyAfter(from - 1)
	start := s
	for h := from; h < from+1_000_000; h++ {
		want := refRewardAt(s, h)
		if got := policy.BlockRewardBySupply(s, uint32(h)); got != want {
			t.Failf("BlockRewardBySupply(%d, %d) = %d, want %d", s, h, got, want)
		}
		s += want
	}
	t.CountN("heights by supply", 1_000_000)
	got := policy.SupplyBetween(start, uint32(from), uint32(from+1_000_000))
	t.Check(got == s, "SupplyBetween(%d, %d, %d) = %d, want %d", start, from, from+1_000_000, got, s)
	t.Distinct("schedule", t.Idx)
	t.Sample("rewards of heights %d to %d, supply then %d", from, from+999_999, s)
	if t.Idx == 0 {
		t.Check(policy.BlockRewardBySupply(refInitial, 0) == 0, "height 0 has a reward")
		t.Check(policy.TotalSupply == refTotal && policy.InitialSupply == refInitial, "supply constants: %d, %d", uint64(policy.TotalSupply), uint64(policy.InitialSupply))
	}
}

func askPolicy(h uint64) (supply, reward uint64, bad string) {
	supply = policy.SupplyAfter(uint32(h))
	if want := refSupplyAfter(h); supply != want {
		return 0, 0, fmt.Sprintf("SupplyAfter(%d) = %d, want %d", h, supply, want)
	}
	if h > 0 {
		reward = policy.BlockReward(uint32(h))
		if want := refReward(h); reward != want {
			return 0, 0, fmt.Sprintf("BlockReward(%d) = %d, want %d", h, reward, want)
		}
	}
	return
}

// p01Boundaries asks for the heights around every boundary of the cache.
func p01Boundaries(t *T) {
	for i := uint64(t.Idx); i <= emissionEnd/5000; i += 16 {
		for d := -1; d <= 1; d++ {
			h := int64(i*5000) + int64(d)
			if h < 0 {
				continue
			}
			_, _, bad := askPolicy(uint64(h))
			t.Check(bad == "", "%s", bad)
			t.Count("supplies queried")
			t.Eval()
		}
		t.Distinct("boundary", i)
	}
}

func p01Orders(t *T) {
	t.runChild("", "policy-orders", t.Seed, t.Idx)
	t.Distinct("order", t.Idx, t.Seed)
}

func childPolicyOrders(c *child) {
	r := newRand(c.num(0), "policy-orders", int(c.num(1)))
	var asked []uint64
	for i := 0; i < 150; i++ {
		h := genHeight(r)
		switch {
		case len(asked) > 0 && r.P(1, 4): // again
			h = asked[r.N(len(asked))]
		case len(asked) > 0 && r.P(1, 4): // close
			h = asked[r.N(len(asked))] + uint64(r.N(3))
		}
		asked = append(asked, h)
	}
	switch c.num(1) % 4 {
	case 0: // descending
		for i := range asked {
			for j := i; j > 0 && asked[j] > asked[j-1]; j-- {
				asked[j], asked[j-1] = asked[j-1], asked[j]
			}
		}
	case 1: // ascending
		for i := range asked {
			for j := i; j > 0 && asked[j] < asked[j-1]; j-- {
				asked[j], asked[j-1] = asked[j-1], asked[j]
			}
		}
	}
	for i, h := range asked {
		_, _, bad := askPolicy(h)
		c.Check(bad == "", "query %d in this process, after %v: %s", i, asked[max(0, i-20):i], bad)
		if r.P(1, 40) { // there is no such block; whatever is said must not matter for the next query
			_ = try(func() { policy.BlockReward(0) })
			c.counts["rewards of height zero asked"]++
		}
		c.counts["cold queries"]++
	}
}

// p01Far asks for heights long after the end of the emission.
func p01Far(t *T) {
	h := []uint64{60_000_000, 150_000_000, 1 << 31, 1<<32 - 1}[t.Idx]
	_, _, bad := askPolicy(h)
	t.Check(bad == "", "%s", bad)
	t.Distinct("far", h)
}

// p01Every asks for the reward of every height.
func p01Every(t *T) {
	from := uint64(t.Idx)*100_000 + 1
	s := refSupplyAfter(from - 1)
	for h := from; h < from+100_000; h++ {
		want := refRewardAt(s, h)
		if got := policy.BlockReward(uint32(h)); got != want {
			t.Failf("BlockReward(%d) = %d, want %d", h, got, want)
		}
		s += want
	}
	t.CountN("rewards queried", 100_000)
	t.Distinct("every", t.Idx)
}

func p02Ranges(t *T) {
	r := t.R
	h := []uint64{genHeight(r), genHeight(r), genHeight(r)}
	if r.P(2, 3) { // close together
		h[1] = h[0] + uint64(r.N(12_000))
		h[2] = h[1] + uint64(r.N(12_000))
	}
	for i := range h {
		for j := i; j > 0 && h[j] < h[j-1]; j-- {
			h[j], h[j-1] = h[j-1], h[j]
		}
	}
	a, b, c := h[0], h[1], h[2]
	sa, sb, sc := policy.SupplyAfter(uint32(a)), policy.SupplyAfter(uint32(b)), policy.SupplyAfter(uint32(c))
	t.Check(policy.InitialSupply <= sa && sa <= sb && sb <= sc && sc <= policy.TotalSupply,
		"supplies after %d, %d, %d are %d, %d, %d", a, b, c, sa, sb, sc)
	ra, rb, rc := policy.BlockReward(uint32(a+1)), policy.BlockReward(uint32(b+1)), policy.BlockReward(uint32(c+1))
	t.Check(ra >= rb && rb >= rc, "rewards at %d, %d, %d are %d, %d, %d", a+1, b+1, c+1, ra, rb, rc)
	if c-a < 60_000 || r.P(1, 40) {
		ab := policy.SupplyBetween(sa, uint32(a+1), uint32(b+1))
		bc := policy.SupplyBetween(ab, uint32(b+1), uint32(c+1))
		ac := policy.SupplyBetween(sa, uint32(a+1), uint32(c+1))
		t.Check(ab == sb && bc == sc && ac == sc, "ranges %d-%d-%d: %d, %d, %d, but supplies %d, %d, %d", a, b, c, ab, bc, ac, sa, sb, sc)
		t.Count("splits")
	}
	if b-a < 64 {
		sum := sa
		for x := a + 1; x <= b; x++ {
			sum += policy.BlockReward(uint32(x))
		}
		t.Check(sum == sb, "rewards of %d to %d lead from %d to %d, supply is %d", a+1, b, sa, sum, sb)
		t.Count("ranges summed up")
	}
	// Nothing is gained over no heights.
	for _, none := range [][2]uint64{{a, a}, {b, b}, {c + 1, c + 1}, {0, 0}} {
		got := policy.SupplyBetween(sb, uint32(none[0]), uint32(none[1]))
		t.Check(got == sb, "SupplyBetween(%d, %d, %d) = %d", sb, none[0], none[1], got)
	}
	t.Distinct(a, b, c)
	t.Sample("supplies after %d, %d, %d: %d, %d, %d", a, b, c, sa, sb, sc)
}

// p02Supplies applies the reward function to supplies off the schedule.
func p02Supplies(t *T) {
	r := t.R
	for k := 0; k < 50; k++ {
		t.Eval()
		var left uint64
		switch r.N(4) {
		case 0:
			left = uint64(r.N(10_000))
		case 1:
			left = uint64(refSpeed*r.N(5000)) + uint64(r.N(3))
		default:
			left = r.Uint64() % (refTotal + 1)
		}
		s := refTotal - left
		h := genHeight(r)
		got := policy.BlockRewardBySupply(s, uint32(h))
		t.Check(got <= left, "reward %d at height %d exceeds what is left of the supply, %d", got, h, left)
		less := r.Uint64() % (left + 1)
		next := policy.BlockRewardBySupply(refTotal-less, uint32(h))
		t.Check(h == 0 || next <= got || next == policy.EmissionTailReward && h >= uint64(policy.EmissionTailStart), "reward at height %d is %d with %d left, %d with %d left", h, got, left, next, less)
		t.Distinct(s, h)
	}
}

// p02Long splits long ranges from supplies off the schedule, such as those at which the rewards
// have the size of the tail's, or end.
func p02Long(t *T) {
	r := t.R
	left := uint64(refSpeed) * uint64(choose(r, 1, 2, 10, 3999, 4000, 4001, 4002, 4010, r.N(6000), r.N(500_000_000)))
	left += uint64(choose(r, 0, 1, r.N(refSpeed), refSpeed-1))
	if r.P(1, 6) {
		left = uint64(r.N(400_000_000))
	}
	if v, ok := r.Const(refTotal); ok && r.P(1, 6) {
		left = choose(r, v, refTotal-v)
	}
	if left > refTotal {
		left = refTotal
	}
	start := genHeight(r)
	switch r.N(5) {
	case 0:
		start = refTailStart - uint64(r.N(100_000))
	case 1:
		start = refTailStart + uint64(r.N(1000))
	case 2:
		start = uint64(choose(r, 0, 1, 4999, 5000))
	}
	n := uint64(choose(r, 1, 255, 256, 4096, 5000, 10_000, 65_535, 65_536, 65_537, 100_000, 200_000, r.N(300_000), r.Len(300_000, 1)))
	if start+n > 1<<32-1 {
		start = 1<<32 - 1 - n
	}
	supply := refTotal - left
	want := supply
	for h := start; h < start+n; h++ {
		if h > 0 { // there is no block 0
			want += refRewardAt(want, h)
		}
	}
	got := policy.SupplyBetween(supply, uint32(start), uint32(start+n))
	t.Check(got == want, "from supply %d, heights %d to %d lead to %d, want %d", supply, start, start+n, got, want)
	parts := supply
	for h := start; h < start+n; {
		e := h + 1 + uint64(r.N(int(n)))
		if e > start+n {
			e = start + n
		}
		parts = policy.SupplyBetween(parts, uint32(h), uint32(e))
		h = e
		t.Count("long splits")
	}
	t.Check(parts == want, "from supply %d, heights %d to %d lead to %d in parts, want %d", supply, start, start+n, parts, want)
	t.Distinct(supply, start, n)
}

// p02Ascent climbs a piece of the schedule block by block.
func p02Ascent(t *T) {
	from := uint64(t.R.N(53_000_000))
	switch t.Idx {
	case 0:
		from = 0
	case 1:
		from = refTailStart - 5000
	case 2:
		from = 52_888_985 - 5000
	}
	s := policy.SupplyAfter(uint32(from))
	last := policy.BlockReward(uint32(from + 1))
	for h := from + 1; h < from+10_000; h++ {
		rew := policy.BlockReward(uint32(h))
		t.Check(rew <= last, "reward rises from %d to %d at height %d", last, rew, h)
		next := policy.SupplyAfter(uint32(h))
		t.Check(next == s+rew && next <= policy.TotalSupply, "supply goes from %d to %d at height %d with a reward of %d", s, next, h, rew)
		s, last = next, rew
	}
	t.CountN("steps up the schedule", 10_000)
	t.Distinct("ascent", from)
}

func p03(t *T) {
	t.runChild("", "policy-race", t.Seed, t.Idx)
	t.Distinct("cold start", t.Idx, t.Seed)
}

func childPolicyRace(c *child) {
	r := newRand(c.num(0), "policy-race", int(c.num(1)))
	runtime.GOMAXPROCS(choose(r, 2, 4, 8, 8))
	g := choose(r, 2, 3, 8, 16, 64)
	limit := choose(r, 20_000, 100_000, 1_000_000, 5_000_000)
	queries := make([][]uint64, g)
	shared := uint64(r.N(limit))
	for i := range queries {
		for n := r.In(1, 12); n > 0; n-- {
			h := uint64(r.N(limit))
			switch r.N(40) / 10 {
			case 0:
				h = shared
				if r.P(1, 6) {
					h = 0
				}
			case 1:
				h = uint64(r.N(limit/5000+1)*5000 + r.N(2))
			}
			queries[i] = append(queries[i], h)
		}
	}
	type answer struct{ supply, reward uint64 }
	type span struct{ from, to time.Time } // taken without synchronising the goroutines
	answers := make([][]answer, g)
	spans := make([][]span, g)
	var ready, done sync.WaitGroup
	release := make(chan struct{})
	ready.Add(g)
	done.Add(g)
	for i := range queries {
		yields := r.N(3)
		go func() {
			defer done.Done()
			ready.Done()
			<-release
			for k := 0; k < yields; k++ {
				runtime.Gosched()
			}
			for _, h := range queries[i] {
				sp := span{from: time.Now()}
				a := answer{supply: policy.SupplyAfter(uint32(h))}
				if h > 0 {
					a.reward = policy.BlockReward(uint32(h))
				} else {
					_ = try(func() { policy.BlockReward(0) })
				}
				sp.to = time.Now()
				answers[i] = append(answers[i], a)
				spans[i] = append(spans[i], sp)
			}
		}()
	}
	ready.Wait()
	close(release)
	done.Wait()
	for i := range queries {
		for k, h := range queries[i] {
			want := answer{supply: refSmallSupply(h)}
			if h > 0 {
				want.reward = refRewardAt(refSmallSupply(h-1), h)
			}
			c.Check(answers[i][k] == want, "goroutine %d of %d: answer for height %d is %+v, want %+v", i, g, h, answers[i][k], want)
			c.counts["concurrent queries"]++
		}
	}
	for i := range spans {
	next:
		for _, a := range spans[i] {
			for j := range spans {
				for _, b := range spans[j] {
					if i != j && a.from.Before(b.to) && b.from.Before(a.to) {
						c.counts["answers computed while others were computed"]++
						continue next
					}
				}
			}
		}
	}
}

// refSmallSupply is refSupplyAfter for processes that only need the start of the schedule.
var smallTable []uint64

func refSmallSupply(height uint64) uint64 {
	if len(smallTable) == 0 {
		smallTable = append(smallTable, refInitial)
	}
	for uint64(len(smallTable))*refStep <= height {
		i := uint64(len(smallTable) - 1)
		s := smallTable[i]
		for h := i*refStep + 1; h <= (i+1)*refStep; h++ {
			s += refRewardAt(s, h)
		}
		smallTable = append(smallTable, s)
	}
	i := height / refStep
	s := smallTable[i]
	for h := i*refStep + 1; h <= height; h++ {
		s += refRewardAt(s, h)
	}
	return s
}
