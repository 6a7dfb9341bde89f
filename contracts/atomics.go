package contracts

// C11: atomics.RWValue.

func RWLoad(r any) (v any) {
	target("prim/atomics", "(*RWValue).Load")
	var seen = 0
	var loads = 0
	auto("safety", "C11")
	auto("panic", "C11")
	on("load", r.v, func(p any) {
		seen = ite(p == nil, zeroAt(p), *p)
		loads++
	})
	on("block", func(kind any) { assert("C11", false, "Load waits for nobody") })
	on("store", r.v, func(p any) { assert("C11", false, "Load changes nothing") })
	on("cas", r.v, func(o, p any) { assert("C11", false, "Load changes nothing") })
	immutable("C11", "a value that is stored is not changed in place", *r.v)
	ensures("C11", loads >= 1 && v == seen, "Load returns the value that was stored last, or the zero value")
}

func RWStore(r, v any) {
	target("prim/atomics", "(*RWValue).Store")
	var stores = 0
	freezePublished()
	auto("safety", "C11")
	auto("panic", "C11")
	auto("lock", "C11")
	auto("frozen", "C11")
	on("store", r.v, func(p any) {
		assert("C11", held(r.mu), "the value is only changed by the writer that holds the lock")
		assert("C11", p != nil && *p == v && isNew(p), "what is stored is the given value, in its own place")
		stores++
	})
	on("cas", r.v, func(o, p any) { assert("C11", false, "the value is stored, whatever was there") })
	on("block", func(kind any) { assert("C11", isKind("lock") && !heldAny(), "Store only waits for the other writers") })
	immutable("C11", "a value that is stored is not changed in place", *r.v)
	ensures("C11", stores == 1, "the value is stored once")
	ensures("C11", !heldAny(), "no lock is kept")
}

func RWLoadReplace(r, lr any) (err any) {
	target("prim/atomics", "(*RWValue).LoadReplace")
	requires(lr != nil)
	var cur = 0          // the current value in this critical section
	var calls = 0
	var fresh = false    // lr was called in this critical section
	var stores = 0
	var n = 0
	var e = nil
	freezePublished()
	auto("safety", "C11")
	auto("panic", "C11")
	auto("lock", "C11")
	auto("frozen", "C11")
	on("lock", r.mu, func() {
		havoc(r.v)
		cur = ite(r.v == nil, zeroAt(r.v), *r.v)
		quiet(r) // all writers hold the lock
		fresh = false
	})
	on("unlock", r.mu, func() {
		assert("C11", imp(fresh, e != nil || stores == 1), "the value is replaced before other writers can change it")
		unquiet(r)
		fresh = false
	})
	on("call", lr, "func(T) (T, error)", func(x any) {
		assert("C11", calls == 0, "the function is called once")
		assert("C11", held(r.mu), "no other writer changes the value during the call")
		assert("C11", x == cur, "the function gets the current value")
		calls++
		fresh = true
	})
	on("ret", lr, "func(T) (T, error)", func(x, y, z any) {
		n = y
		e = z
	})
	on("store", r.v, func(p any) {
		assert("C11", held(r.mu) && fresh, "the value is only changed by the writer that holds the lock")
		assert("C11", e == nil, "the value is not changed if the function fails")
		assert("C11", p != nil && *p == n && isNew(p), "what is stored is the value that the function returned, in its own place")
		stores++
	})
	on("cas", r.v, func(o, p any) { assert("C11", false, "the value is stored, whatever was there") })
	on("block", func(kind any) { assert("C11", isKind("lock") && !heldAny(), "LoadReplace only waits for the other writers") })
	immutable("C11", "a value that is stored is not changed in place", *r.v)
	ensures("C11", calls == 1, "the function is called once")
	ensures("C11", err == e, "the error of the function is returned")
	ensures("C11", imp(e == nil, stores == 1), "the value is replaced if the function returned no error")
	ensures("C11", !heldAny(), "no lock is kept")
}
