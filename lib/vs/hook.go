package vs

// Hooks of functions named in a property's "hooks": a hook is called with the
// arguments (the receiver first) and either returns nil, and the call goes on,
// or the results.
var Hooks = map[string]func(args []any) []any{}

func Hook(name string, args ...any) []any {
	if h := Hooks[name]; h != nil {
		return h(args)
	}
	return nil
}

func As[T any](r []any, i int) T {
	t, _ := r[i].(T)
	return t
}

// OnExit sees os.Exit; the thread that calls it goes no further.
var OnExit func(code int)

func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	BlockForever()
}
