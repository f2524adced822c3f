package core

// OnPoolMisuse is told about misuse of a sync.Pool.
var OnPoolMisuse func(what string)

// PoolMisuse reports misuse of a sync.Pool.
func PoolMisuse(what string) {
	Logf("pool: %s", what)
	if OnPoolMisuse != nil {
		OnPoolMisuse(what)
	}
}
