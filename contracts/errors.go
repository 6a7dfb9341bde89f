package contracts

// C07: goroutines.Errors. K is any fixed index.

func Record(e, err any) {
	target("goroutines", "(*Errors).Record")
	K := anyInt("K")
	var n = len(e.errors)
	var x = elem(e.errors, K)
	var added = 0
	guarded("C07", "the errors are only accessed with the lock held", e.mu, e.errors)
	auto("lock", "C07")
	auto("safety", "C07")
	on("lock", func() {
		n = len(e.errors)
		x = elem(e.errors, K)
	})
	on("unlock", func() {
		assert("C07", imp(0 <= K && K < n, K < len(e.errors) && elem(e.errors, K) == x), "Record keeps the earlier errors in their places")
		assert("C07", imp(len(e.errors) != n, len(e.errors) == n+1 && elem(e.errors, n) == err), "Record adds its error at the end and nothing else")
		added += len(e.errors) - n
	})
	ensures("C07", added == 1, "Record adds its error exactly once")
}

func First(e any) (res any) {
	target("goroutines", "(*Errors).Error")
	var first = ite(len(e.errors) > 0, elem(e.errors, 0), nil)
	var n = len(e.errors)
	guarded("C07", "the errors are only accessed with the lock held", e.mu, e.errors)
	auto("lock", "C07")
	auto("safety", "C07")
	on("lock", func() {
		n = len(e.errors)
		first = ite(len(e.errors) > 0, elem(e.errors, 0), nil)
	})
	on("unlock", func() { assert("C07", len(e.errors) == n, "Error changes nothing") })
	ensures("C07", res == first, "Error returns the first recorded error, nil if there is none")
}

func All(e any) (res any) {
	target("goroutines", "(*Errors).Errors")
	K := anyInt("K")
	var n = len(e.errors)
	var x = elem(e.errors, K)
	guarded("C07", "the errors are only accessed with the lock held", e.mu, e.errors)
	auto("lock", "C07")
	auto("safety", "C07")
	on("lock", func() {
		n = len(e.errors)
		x = elem(e.errors, K)
	})
	on("unlock", func() {
		assert("C07", len(e.errors) == n, "Errors changes nothing")
		assert("C07", imp(0 <= K && K < n, elem(e.errors, K) == x), "Errors keeps all errors in their places")
	})
	ensures("C07", len(res) == n, "Errors returns as many errors as were recorded")
	ensures("C07", imp(0 <= K && K < n, elem(res, K) == x), "Errors returns the errors in the order of recording")
	ensures("C07", isNew(res), "Errors returns a copy")
	inv("[]error", func(x any) bool { return isNew(x) && (base(x) == nil || base(x) != base(e.errors)) })
	inv(len(e.errors) == n && imp(0 <= K && K < n, elem(e.errors, K) == x))
	inv("[]error", func(x any) bool { return len(x) == iter })
	inv("[]error", func(x any) bool { return imp(0 <= K && K < len(x), elem(x, K) == elem(e.errors, K)) })
}
