package contracts

// C06: names of pools. K is any fixed key of the registry.

func Register(p any) (err any) {
	target("goroutines/internal/register", "Register")
	K := anyString("K")
	n := poolname(p)
	requires(p != nil)
	var taken = false
	var hadK = false
	var valK = nil
	var done = false
	guarded("C06", "the registry is only accessed with the lock held", register.mu, register.registry)
	auto("lock", "C06")
	on("lock", func() {
		taken = has(register.registry, n)
		hadK = has(register.registry, K)
		valK = val(register.registry, K)
	})
	on("unlock", func() {
		assert("C06", imp(K != n, has(register.registry, K) == hadK && imp(hadK, val(register.registry, K) == valK)), "registering a pool changes no other entry")
		assert("C06", imp(hadK, has(register.registry, K) && val(register.registry, K) == valK), "registering a pool never replaces an entry")
		done = !taken && has(register.registry, n) && val(register.registry, n) == p
	})
	ensures("C06", imp(err == nil && n != "", done), "a pool is registered under its name if Register returns nil")
	ensures("C06", imp(n == "", err == nil), "a pool without a name is accepted")
	ensures("C06", imp(err != nil, taken), "Register only fails if the name is taken")
}

func Unregister(p any) {
	target("goroutines/internal/register", "Unregister")
	K := anyString("K")
	n := poolname(p)
	requires(p != nil)
	var own = false
	var hadK = false
	var valK = nil
	var gone = false
	guarded("C06", "the registry is only accessed with the lock held", register.mu, register.registry)
	auto("lock", "C06")
	on("lock", func() {
		own = has(register.registry, n) && val(register.registry, n) == p
		hadK = has(register.registry, K)
		valK = val(register.registry, K)
	})
	on("unlock", func() {
		assert("C06", imp(K != n, has(register.registry, K) == hadK && imp(hadK, val(register.registry, K) == valK)), "unregistering a pool changes no other entry")
		gone = !own || !has(register.registry, n)
	})
	ensures("C06", gone, "the entry of the pool is gone after Unregister")
}

func ValidateBaseName(name any) (err any) {
	target("goroutines/internal/register", "ValidateBaseName")
	exactStrings()
	ensures("C06", iff(err != nil, matchesRE(name, `[0-9-\s]`)), "names with digits, hyphens or whitespace are refused, and no others")
}

func NewNameFirst(name any) (res any) {
	target("goroutines/internal/register", "NewName")
	exactStrings()
	requires(!matchesRE(name, `[0-9-\s]`))
	auto("panic", "C06")
	auto("safety", "C06")
	ensures("C06", res == name+"-1", "the first name that is tried instead is the requested one with -1")
}

func NewNameNext(name any) (res any) {
	target("goroutines/internal/register", "NewName")
	exactStrings()
	b := anyString("base")
	n := anyInt("n")
	requires(!matchesRE(b, `[0-9-\s]`), n >= 1)
	requires(name == b+"-"+itoa(n))
	auto("panic", "C06")
	auto("safety", "C06")
	ensures("C06", res == b+"-"+itoa(n+1), "the next name that is tried has the next number")
}

func RegisterPools() (ch any) {
	target("goroutines/internal/register", "Pools")
	var closed = false
	guarded("C06", "the registry is only accessed with the lock held", register.mu, register.registry)
	auto("lock", "C06")
	auto("safety", "C06")
	on("close", func() { closed = true })
	on("goend", func() { assert("C06", closed && !heldAny(), "the channel of the pools is closed at the end") })
	ensures("C06", closed, "the channel of the pools is closed in the end")
}

func LimitedNewName(name, size any) (p, err any) {
	target("goroutines/limited", "New")
	exactStrings()
	opaque("goroutines/internal/register", "NewName", "func(string) string")
	var tries = 0
	var key = ""
	var sets = 0
	var taken = false
	guarded("C06", "the registry is only accessed with the lock held", register.mu, register.registry)
	auto("lock", "C06")
	auto("panic", "C06")
	auto("safety", "C06")
	on("lock", func() {
		assert("C06", made("Pool").name == ite(tries == 0, name, name+"-"+itoa(tries)), "the names are tried in turn: the requested one, then with -1, -2 and so on")
		tries++
		taken = has(register.registry, made("Pool").name)
	})
	on("opaqueret:NewName", func(arg, res any) {
		// instances of NewNameFirst and NewNameNext
		assume(imp(tries == 1 && arg == name, res == name+"-1"))
		assume(imp(tries >= 2 && arg == name+"-"+itoa(tries-1), res == name+"-"+itoa(tries)))
	})
	on("mapset", register.registry, func(k, v any) {
		assert("C06", k == made("Pool").name && !taken, "the entry is new and under the name of the pool")
		assert("C06", v == iface(made("Pool")), "the new pool is what is registered")
		key = k
		sets++
	})
	ensures("C06", imp(size < 1 || matchesRE(name, `[0-9-\s]`), err != nil && tries == 0), "New refuses bad sizes and names and registers nothing then")
	ensures("C06", imp(size >= 1 && !matchesRE(name, `[0-9-\s]`), err == nil && p != nil), "New returns a pool if the arguments are good")
	ensures("C06", imp(err == nil && name != "", sets == 1 && key == p.name), "the pool is registered once, under its own name")
	ensures("C06", imp(err == nil, run(p, "GetName") == p.name && (tries == 0 && p.name == name || tries >= 1 && p.name == ite(tries == 1, name, name+"-"+itoa(tries-1)))), "the name is the requested one or that with a hyphen and a number")
	ensures("C06", imp(err == nil && name == "", sets == 0), "a pool without a name is not registered")
	inv(made("Pool").name == ite(tries == 0, name, name+"-"+itoa(tries)))
	inv(tries >= 0)
	inv(imp(name == "", tries == 0))
	inv(sets == 0)
}

func PooledNewName(name, size any) (p, err any) {
	target("goroutines/pooled", "New")
	exactStrings()
	opaque("goroutines/internal/register", "NewName", "func(string) string")
	var tries = 0
	var key = ""
	var sets = 0
	var taken = false
	guarded("C06", "the registry is only accessed with the lock held", register.mu, register.registry)
	auto("lock", "C06")
	auto("panic", "C06")
	on("recv", made("Pool").queue, func(s, ok any) {
		if ok {
			assume(owned(s, made("Pool"))) // see PooledSubmit
		}
	})
	on("lock", func() {
		assert("C06", made("Pool").name == ite(tries == 0, name, name+"-"+itoa(tries)), "the names are tried in turn: the requested one, then with -1, -2 and so on")
		tries++
		taken = has(register.registry, made("Pool").name)
	})
	on("opaqueret:NewName", func(arg, res any) {
		// instances of NewNameFirst and NewNameNext
		assume(imp(tries == 1 && arg == name, res == name+"-1"))
		assume(imp(tries >= 2 && arg == name+"-"+itoa(tries-1), res == name+"-"+itoa(tries)))
	})
	on("mapset", register.registry, func(k, v any) {
		assert("C06", k == made("Pool").name && !taken, "the entry is new and under the name of the pool")
		assert("C06", v == iface(made("Pool")), "the new pool is what is registered")
		key = k
		sets++
	})
	ensures("C06", imp(size < 1 || matchesRE(name, `[0-9-\s]`), err != nil && tries == 0), "New refuses bad sizes and names and registers nothing then")
	ensures("C06", imp(size >= 1 && !matchesRE(name, `[0-9-\s]`), err == nil && p != nil), "New returns a pool if the arguments are good")
	ensures("C06", imp(err == nil && name != "", sets == 1 && key == p.name), "the pool is registered once, under its own name")
	ensures("C06", imp(err == nil, run(p, "GetName") == p.name && (tries == 0 && p.name == name || tries >= 1 && p.name == ite(tries == 1, name, name+"-"+itoa(tries-1)))), "the name is the requested one or that with a hyphen and a number")
	ensures("C06", imp(err == nil && name == "", sets == 0), "a pool without a name is not registered")
	inv(made("Pool").name == ite(tries == 0, name, name+"-"+itoa(tries)))
	inv(tries >= 0)
	inv(imp(name == "", tries == 0))
	inv(sets == 0)
}

func LimitedCloseName(p any) {
	target("goroutines/limited", "(*Pool).Close")
	var own = false
	var gone = false
	immutable("C06", "the name of a pool is not changed", p.name)
	guarded("C06", "the registry is only accessed with the lock held", register.mu, register.registry)
	on("lock", func() {
		own = has(register.registry, p.name) && val(register.registry, p.name) == iface(p)
	})
	on("unlock", func() {
		gone = gone || !own || !has(register.registry, p.name)
	})
	ensures("C06", gone, "Close removes the entry of the pool")
}

func PooledCloseName(p any) {
	target("goroutines/pooled", "(*Pool).Close")
	var own = false
	var gone = false
	immutable("C06", "the name of a pool is not changed", p.name)
	guarded("C06", "the registry is only accessed with the lock held", register.mu, register.registry)
	on("lock", func() {
		own = has(register.registry, p.name) && val(register.registry, p.name) == iface(p)
	})
	on("unlock", func() {
		gone = gone || !own || !has(register.registry, p.name)
	})
	ensures("C06", gone, "Close removes the entry of the pool")
}
